SPECIFICATION Spec
CONSTANTS
  W = 2
  Top = 6
INVARIANTS Refines Tight Asks
CHECK_DEADLOCK FALSE
