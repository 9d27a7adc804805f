SPECIFICATION Spec
CONSTANTS
 N = 3
 Depth = 4
 Gen = FALSE
INVARIANTS AsIfOnTime SymmetricPSD RefusedUnchanged
CHECK_DEADLOCK FALSE
