------------------------------ MODULE FlatCases -----------------------------
(* Every operation on every pair of sets of keys, for replay.                  *)
EXTENDS Flat, TLC, Json
CONSTANTS Keys
VARIABLES a, b, c
vars == <<a, b, c>>
Unary  == {"add", "remove", "has", "clear"}
Binary == {"addall", "union", "keepall", "inter", "remall", "diff", "hasinter", "misses"}
Init == /\ a \in SUBSET Keys
        /\ \/ b = {} /\ c \in {<<o, x>> : o \in Unary, x \in Keys}
           \/ b \in SUBSET Keys /\ c \in {<<o, 0>> : o \in Binary}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("C " \o ToJson([a |-> Asc(a), b |-> Asc(b), o |-> c[1], x |-> c[2], r |-> Ret(c[1], a, c[2], b), s |-> Asc(Res(c[1], a, c[2], b))]))
=============================================================================
