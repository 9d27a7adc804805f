SPECIFICATION Spec
CONSTANTS
  Headers = {1, 2, 3}
  Poses = {1, 2}
  MaxOps = 6
  Gen = FALSE
INVARIANTS AllPoses LastHeader
PROPERTIES KeepsOld
CHECK_DEADLOCK FALSE
