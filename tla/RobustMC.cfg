CONSTANTS
  Values = {0, 1, 2, 5}
  MaxLen = 6
SPECIFICATION Spec
INVARIANTS MedianHalves MedianMiddle OrderFree SpreadShiftsAndScales Huberly
CHECK_DEADLOCK FALSE
