SPECIFICATION Spec
CONSTANTS Shape = "two"
 Workers = 2
 Locked = TRUE
 All = FALSE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
