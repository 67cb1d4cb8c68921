SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
INVARIANTS Refines Asks
CHECK_DEADLOCK FALSE
