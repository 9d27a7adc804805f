SPECIFICATION Spec
CONSTANTS
 Depth = 5
 Gen = FALSE
INVARIANTS Information Shrinks RefusedUnchanged SymmetricPSD
CHECK_DEADLOCK FALSE
