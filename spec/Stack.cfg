SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Nodes = {1, 2, 3}
 Ops = 2
 TAGS = 100
INVARIANTS Faithful OneOwner
CHECK_DEADLOCK FALSE
