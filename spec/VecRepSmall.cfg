CONSTANTS
  Vars = {v1, v2, v3}
  Blocks = {1, 2, 3}
  MaxLen = 2
  Small = 1
  Values = {7, 8}
SPECIFICATION Spec
INVARIANTS ShowsVal CountsOk NoLeak
PROPERTIES Isolated SoleWrite

