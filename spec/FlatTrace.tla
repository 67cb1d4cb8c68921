------------------------------ MODULE FlatTrace -----------------------------
(* Recorded histories of four sorted sets, of a sorted map, of a counted set.  *)
EXTENDS Flat, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, m, st
vars == <<h, l, m, st>>
Kind == T[h].kind
Init == h \in 1..Len(T) /\ l = 1 /\ m = (IF T[h].kind = "set" THEN [i \in 0..3 |-> {}] ELSE <<>>) /\ st = "run"
More == st = "run" /\ l <= Len(T[h].ops)
Good(e) ==
  CASE Kind = "set" -> LET s == Res(e.o, m[e.p], e.x, m[e.q]) IN e.r = Ret(e.o, m[e.p], e.x, m[e.q]) /\ e.s = Asc(s) /\ e.n = Cardinality(s)
    [] Kind = "map" -> e.r = MRet(e.o, m, e.k, e.v, e.i) /\ e.s = Entries(MRes(e.o, m, e.k, e.v, e.i))
    [] Kind = "counted" -> e.r = CRet(e.o, m, e.k) /\ e.s = Entries(CRes(e.o, m, e.k)) /\ e.n = Len(e.s)
After(e) ==
  CASE Kind = "set" -> [m EXCEPT ![e.p] = Res(e.o, m[e.p], e.x, m[e.q])]
    [] Kind = "map" -> MRes(e.o, m, e.k, e.v, e.i)
    [] Kind = "counted" -> CRes(e.o, m, e.k)
Next == /\ More
        /\ LET e == T[h].ops[l] IN
           IF Good(e) THEN m' = After(e) /\ l' = l + 1 /\ UNCHANGED <<h, st>> ELSE st' = "bad" /\ UNCHANGED <<h, l, m>>
Spec == Init /\ [][Next]_vars
Report == More \/ PrintT("V " \o ToString(h) \o " " \o st \o " " \o ToString(l))
=============================================================================
