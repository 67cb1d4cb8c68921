CONSTANTS
    Builders = {p, q}
    Flags = {1}
    MaxEdits = 2
    MaxKills = 1
    MaxStarts = 2
    Variant = "ok"
SPECIFICATION Spec
INVARIANTS CacheSound Delivered FailsForAReason Link2
CHECK_DEADLOCK FALSE
