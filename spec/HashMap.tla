------------------------------ MODULE HashMap -------------------------------
(* lib/hash.fu, what a map is: a finite function. Also the oracle for recorded *)
(* histories: TRACE holds histories of operations with what they returned.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, m, st
vars == <<h, l, m, st>>

Has(k)  == k \in DOMAIN m
Set(k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(K)  == [x \in DOMAIN m \ K |-> m[x]]
Sorts(s) == {s[j] : j \in DOMAIN s}
\* an enumeration of the map shows each entry once
Shows(e, f) == /\ Len(e) = Cardinality(DOMAIN f)
               /\ Sorts(e) = {<<k, f[k]>> : k \in DOMAIN f}

\* what an operation returned is what it has to return
Ok(e) ==
  CASE e.o = "set"  -> e.r = e.v
    [] e.o = "get"  -> e.r = (IF Has(e.k) THEN <<1, m[e.k]>> ELSE <<0, 0>>)
    [] e.o = "rem"  -> e.r = (IF Has(e.k) THEN 1 ELSE 0)
    [] e.o = "ref"  -> e.r = (IF Has(e.k) THEN m[e.k] ELSE e.i) + e.v          \* adds v, after setting to i if absent
    [] e.o = "try"  -> e.r = (IF Has(e.k) THEN m[e.k] + e.v ELSE -1)           \* like ref, but what gives the value throws or jumps away
    [] e.o = "fail" -> e.r = -1                                                 \* like ref, and then throws
    [] e.o = "ifref" -> e.r = (IF Has(e.k) THEN m[e.k] + e.v ELSE -1)          \* adds v if present
    [] e.o = "clear" -> TRUE
    [] e.o = "each" -> Shows(e.r, m)
    [] e.o = "cull" -> Shows(e.r, m)                                            \* each, removing the keys in e.k on the way
    [] e.o = "copy" -> TRUE                                                     \* goes on with a copy, and writes to the original
After(e) ==
  CASE e.o = "set" -> Set(e.k, e.v)
    [] e.o = "rem" -> Del({e.k})
    [] e.o \in {"ref", "fail"} -> Set(e.k, (IF Has(e.k) THEN m[e.k] ELSE e.i) + e.v)
    [] e.o \in {"ifref", "try"} -> IF Has(e.k) THEN Set(e.k, m[e.k] + e.v) ELSE m
    [] e.o = "clear" -> <<>>
    [] e.o = "cull" -> Del(Sorts(e.k))
    [] OTHER -> m

Init == h \in 1..Len(T) /\ l = 1 /\ m = <<>> /\ st = "run"
More == st = "run" /\ l <= Len(T[h].ops)
Next == /\ More
        /\ LET e == T[h].ops[l] IN
           IF Ok(e) /\ e.n = Cardinality(DOMAIN After(e))
           THEN m' = After(e) /\ l' = l + 1 /\ UNCHANGED <<h, st>>
           ELSE st' = "bad" /\ UNCHANGED <<h, l, m>>
Spec == Init /\ [][Next]_vars
Report == More \/ PrintT("V " \o ToString(h) \o " " \o st \o " " \o ToString(l))
=============================================================================
