CONSTANTS
    Builders = {p}
    Flags = {1, 2}
    MaxEdits = 3
    MaxKills = 2
    MaxStarts = 3
    Variant = "statlate"
SPECIFICATION Spec
INVARIANTS CacheSound Delivered FailsForAReason Link2 NeverStuck
CHECK_DEADLOCK FALSE
