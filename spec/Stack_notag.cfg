SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Nodes = {1, 2, 3}
 Ops = 4
 TAGS = 0
INVARIANTS Faithful OneOwner
CHECK_DEADLOCK FALSE
