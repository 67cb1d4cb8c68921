SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Ops = 2
 Acquire = FALSE
INVARIANTS NoRace Counted
CHECK_DEADLOCK FALSE
