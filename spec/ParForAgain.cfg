SPECIFICATION Spec
CONSTANTS Shape = "again"
 Workers = 2
 Locked = TRUE
 All = TRUE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
