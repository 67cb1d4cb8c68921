SPECIFICATION Spec
CONSTANTS Shape = "deep"
 Workers = 2
 Locked = TRUE
 All = TRUE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
