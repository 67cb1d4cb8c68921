SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
INVARIANT Emit
CHECK_DEADLOCK FALSE
