SPECIFICATION Spec
CONSTANTS Shape = "one"
 Workers = 1
 Locked = FALSE
 All = TRUE
INVARIANTS EachOnce ReturnsLast NoneLeft
PROPERTY Ends
