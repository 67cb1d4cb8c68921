CONSTANTS
  Lens = {0, 1, 2, 3, 4}
  SLens = {0, 1, 3, 4}
INIT Init
NEXT Next
