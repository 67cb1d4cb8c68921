------------------------------ MODULE ArrTrace ------------------------------
(* Recorded histories of threads that hold arrays made of the same memory: each thread's arrays have to show what that thread did
   to them, as though nobody else had any. (That memory is not used without synchronization, nor after its end of life, and is
   given back, is for ParTrace to judge.)                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, i, own
vars == <<n, i, own>>

RECURSIVE Digits(_)
Digits(x) == IF x = 0 THEN <<>> ELSE <<x % 16>> \o Digits(x \div 16)
Shown(e) == Digits(e.x) \o Digits(e.y)
Hist == [k \in 1..Len(H) |-> SelectSeq(H[k].ev, LAMBDA e : e.k = "arr")]
E == Hist[n][i]
D(e) == e.r \div 16
S(e) == e.r % 16
P(e) == e.z \div 16
Q(e) == e.z % 16
Key(e, d) == <<e.t, d>>

(* what has to be there after the event; the first time something is shown, it is what the thread was given *)
After(e) ==
    LET a == IF Key(e, D(e)) \in DOMAIN own THEN own[Key(e, D(e))] ELSE Shown(e)
        b == IF Key(e, S(e)) \in DOMAIN own THEN own[Key(e, S(e))] ELSE <<>>
        l == Len(a) IN
    CASE e.a = 1 -> [a EXCEPT ![P(e) + 1] = Q(e)]
      [] e.a = 2 -> Append(a, Q(e))
      [] e.a = 3 -> SubSeq(a, 1, l - 1)
      [] e.a = 4 -> b
      [] e.a = 5 -> <<>>
      [] e.a = 6 -> SubSeq(a, 1, P(e)) \o SubSeq(a, P(e) + 2, l)
      [] e.a = 7 -> a \o b
      [] e.a = 8 -> b
      [] OTHER -> a
Moved(f, e) == IF e.a = 8 THEN [f EXCEPT ![Key(e, S(e))] = <<>>] ELSE f
Empty == [k \in {} |-> <<>>]

Verdict(s) == PrintT("V " \o H[n].id \o " " \o s) /\ n' = n + 1 /\ i' = 1 /\ own' = Empty
Init == n = 1 /\ i = 1 /\ own = Empty
Next == /\ n <= Len(H)
        /\ IF i > Len(Hist[n]) THEN Verdict("ok")
           ELSE IF Shown(E) # After(E) THEN Verdict("bad " \o ToString(i) \o " an array shows what its thread did not do to it")
           ELSE own' = Moved((Key(E, D(E)) :> Shown(E)) @@ own, E) /\ i' = i + 1 /\ n' = n
Spec == Init /\ [][Next]_vars
=============================================================================
