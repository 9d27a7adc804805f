CONSTANTS
  MaxScans = 4
  MaxWindow = 3
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS FirstAtIdentity WindowExact
CHECK_DEADLOCK FALSE
