SPECIFICATION Spec
INVARIANTS FrameOk Report
CHECK_DEADLOCK FALSE
