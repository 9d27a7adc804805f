SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 2}
  Places = {1, 2, 4}
  Stamps = {1, 2, 3}
  MaxQueue = 3
  MaxOps = 4
  Gen = FALSE
INVARIANTS EqualStamps OncePerMessage FromPairs Whole FirstKept Saved Joinable
CHECK_DEADLOCK FALSE
