CONSTANTS
  Levels = {0, 1, 2}
  MaxIter = 4
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS AtMost NeverWorse Verdict
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
