SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4}
  Hashes = {0, 1, 2, 4}
  Emitting = TRUE
INVARIANTS Refines InPlace
CHECK_DEADLOCK FALSE
