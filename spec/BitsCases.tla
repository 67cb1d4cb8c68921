------------------------------ MODULE BitsCases -----------------------------
(* Every operation on every pair of sets of some positions, for replay.        *)
EXTENDS Bits, TLC, Json
CONSTANTS P               \* positions that may be set
VARIABLES a, b, c
vars == <<a, b, c>>
Bounds == {x + k : x \in P, k \in {0, 1}}
Unary  == {"add", "remove", "has", "range", "clearto", "negated", "clear"}
Binary == {"addall", "or", "remall", "inter", "missing"}
Init == /\ a \in SUBSET P
        /\ \/ b = {} /\ c \in {<<o, x>> : o \in Unary, x \in Bounds}
           \/ b \in SUBSET P /\ c \in {<<o, 0>> : o \in Binary}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("C " \o ToJson([a |-> Asc(a), b |-> Asc(b), o |-> c[1], x |-> c[2], r |-> Ret(c[1], a, c[2], b), s |-> Asc(Res(c[1], a, c[2], b))]))
=============================================================================
