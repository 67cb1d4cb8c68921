SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Ops = 2
 Acquire = TRUE
INVARIANTS NoRace Counted
CHECK_DEADLOCK FALSE
