SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2}
  Places = {1, 2, 3, 4, 6, 7}
  MaxOps = 4
  Gen = FALSE
INVARIANTS KeysAreFar SkippedAreNear MapIsKeys
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
