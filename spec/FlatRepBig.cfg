SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5, 6, 7}
INVARIANTS Refines Asks
CHECK_DEADLOCK FALSE
