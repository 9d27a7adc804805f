CONSTANTS
  Stamps = {1, 2, 3, 5}
  Values = {1, 2}
  MaxOps = 6
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS OnePerStamp ClosestIsClosest
PROPERTIES CleanKeepsOld InsertIsFound
CHECK_DEADLOCK FALSE
