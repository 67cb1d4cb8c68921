SPECIFICATION Spec
CONSTANTS
  P = {0, 6, 7, 8, 15, 65}
INVARIANT Emit
CHECK_DEADLOCK FALSE
