CONSTANTS
  Lens = {7, 8, 15, 16}
  SLens = {0, 2, 9, 17}
INIT Init
NEXT Next
