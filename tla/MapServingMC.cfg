SPECIFICATION Spec
CONSTANTS
  Names = {"", "m.pcd"}
  Xs = {0, 1, 7, 1000}
  MaxPoints = 4
  MaxOps = 7
INVARIANTS EveryoneSeesAll Refuses Inside Balanced
CHECK_DEADLOCK FALSE
