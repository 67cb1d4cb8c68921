SPECIFICATION Spec
CONSTANTS
  W = 3
  Top = 7
INVARIANTS Refines Tight Asks
CHECK_DEADLOCK FALSE
