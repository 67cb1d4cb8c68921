------------------------------ MODULE VecTrace ------------------------------
(* Is a history recorded from the real arrays one of the specification's?     *)
EXTENDS Vec, TLC, Json, IOUtils

T  == ndJsonDeserialize(IOEnv.TRACE)
NV == Len(T[1].vals)

VARIABLES l, vals
vars == <<l, vals>>

Init == l = 1 /\ vals = [k \in 1..NV |-> <<>>]

\* the recorded operation, its specified effect, and what every variable showed then
Step == /\ l <= Len(T)
        /\ T[l].f = 0
        /\ vals' = Effect(vals, T[l])
        /\ vals' = T[l].vals
        /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(T) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
