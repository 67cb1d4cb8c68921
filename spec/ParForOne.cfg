SPECIFICATION Spec
CONSTANTS Shape = "one"
 Workers = 2
 Locked = TRUE
 All = TRUE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
