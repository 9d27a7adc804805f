CONSTANTS
  Side = 2
  MaxPoints = 4
  MaxLeaf = 2
SPECIFICATION Spec
INVARIANTS Exact Increasing
CHECK_DEADLOCK FALSE
