SPECIFICATION Spec
CONSTANTS Shape = "nested"
 Workers = 2
 Locked = TRUE
 All = TRUE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
