SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Nodes = {1, 2, 3}
 Ops = 3
 TAGS = 100
INVARIANTS Faithful OneOwner
CHECK_DEADLOCK FALSE
