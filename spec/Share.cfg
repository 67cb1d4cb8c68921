SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Ops = 4
 Acquire = TRUE
INVARIANTS NoRace Counted
CHECK_DEADLOCK FALSE
