SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4}
  Hashes = {0, 1, 2, 3, 5, 7}
  Emitting = FALSE
INVARIANTS Refines InPlace
CHECK_DEADLOCK FALSE
