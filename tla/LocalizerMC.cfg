SPECIFICATION Spec
CONSTANTS
  ScanStamps = {1, 2, 3}
  PriorStamps = {1, 2, 5}
  Horizon = 2
  MaxQueue = 3
  MaxOps = 5
  Kinds = {"pose"}
  Gen = FALSE
INVARIANTS EqualStamps OncePerScan NearestPrior Complete Bounded
CHECK_DEADLOCK FALSE
