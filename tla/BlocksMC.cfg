CONSTANTS
  MaxSize = 60
  MaxPad = 7
  MaxBlocks = 16
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS PartitionOk RejectedOk
CHECK_DEADLOCK FALSE
