SPECIFICATION Spec
CONSTANTS
  Names = {"x", "ring", "t"}
  Types = {2, 4, 7}
  Gaps = {0, 1, 2}
  MaxFields = 3
  MaxPoints = 2
  Gen = FALSE
INVARIANTS OwnCells NeverApart Complete ReadsAll
CHECK_DEADLOCK FALSE
