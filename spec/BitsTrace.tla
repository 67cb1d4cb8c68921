------------------------------ MODULE BitsTrace -----------------------------
(* Recorded histories of bit sets: four sets, each step names the one it works *)
(* on and the other one.                                                       *)
EXTENDS Bits, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, m, st
vars == <<h, l, m, st>>
Init == h \in 1..Len(T) /\ l = 1 /\ m = [i \in 0..3 |-> {}] /\ st = "run"
More == st = "run" /\ l <= Len(T[h].ops)
Next == /\ More
        /\ LET e == T[h].ops[l]
               s == Res(e.o, m[e.p], e.x, m[e.q]) IN
           IF /\ e.r = Ret(e.o, m[e.p], e.x, m[e.q])
              /\ e.s = Asc(s) /\ e.n = Cardinality(s) /\ e.t = Bool(s # {})
           THEN m' = [m EXCEPT ![e.p] = s] /\ l' = l + 1 /\ UNCHANGED <<h, st>>
           ELSE st' = "bad" /\ UNCHANGED <<h, l, m>>
Spec == Init /\ [][Next]_vars
Report == More \/ PrintT("V " \o ToString(h) \o " " \o st \o " " \o ToString(l))
=============================================================================
