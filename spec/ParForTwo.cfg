SPECIFICATION Spec
CONSTANTS Shape = "two"
 Workers = 2
 Locked = TRUE
 All = TRUE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
