SPECIFICATION Spec
CONSTANTS
  P = {0, 1, 7, 8, 9, 16, 63, 64}
INVARIANT Emit
CHECK_DEADLOCK FALSE
