CONSTANTS
    Builders = {p}
    Flags = {1, 2}
    MaxEdits = 2
    MaxKills = 2
    MaxStarts = 3
    Variant = "ok"
SPECIFICATION Spec
INVARIANTS CacheSound Delivered FailsForAReason Link2 NeverStuck
CHECK_DEADLOCK FALSE
