CONSTANTS
  MaxRows = 3
  MaxIdx = 4
SPECIFICATION Spec
INVARIANTS SelectAll SelectEach SelectStacks WhereExact Flattened Rigid KeepsRest CellsCover
CHECK_DEADLOCK FALSE
