----------------------------- MODULE StackTrace -----------------------------
(* Which recorded histories of the real lock-free stack are those of a stack whose operations take effect at once, some time between
   their call and their return (linearizability): TLC looks for the moments. A push puts a sequence of nodes on top, a pop takes
   the top one, or finds nothing when there is nothing. Synchronization is judged by ParTrace.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, i, st, open      \* open: operations that have been called but not returned, and what those that took effect got
vars == <<n, i, st, open>>

Calls(k) == SelectSeq(H[k].ev, LAMBDA e : e.k \in {"push", "pop", "fate"})
Hist == [k \in 1..Len(H) |-> Calls(k)]
RECURSIVE Seg(_)
Seg(y) == IF y = 0 THEN <<>> ELSE <<y % 16>> \o Seg(y \div 16)

Init == n \in 1..Len(H) /\ i = 1 /\ st = <<>> /\ open = [x \in {} |-> 0]
E == Hist[n][i]
More == i <= Len(Hist[n])
CallEv == /\ More /\ E.k # "fate" /\ E.a = 0 /\ i' = i + 1
          /\ open' = (E.x :> [push |-> E.k = "push", y |-> E.y, got |-> -1]) @@ open
          /\ UNCHANGED <<n, st>>
(* it is enough to let operations take effect when some operation is about to return *)
Effect == /\ More /\ E.k # "fate" /\ E.a = 1 /\ open[E.x].got = -1
          /\ \E x \in DOMAIN open :
               /\ open[x].got = -1
               /\ IF open[x].push THEN st' = Seg(open[x].y) \o st /\ open' = [open EXCEPT ![x].got = 0]
                  ELSE IF st = <<>> THEN st' = st /\ open' = [open EXCEPT ![x].got = 0]
                  ELSE st' = Tail(st) /\ open' = [open EXCEPT ![x].got = Head(st)]
          /\ UNCHANGED <<n, i>>
RetEv == /\ More /\ E.k # "fate" /\ E.a = 1 /\ open[E.x].got # -1
         /\ open[E.x].push \/ open[E.x].got = E.y
         /\ i' = i + 1 /\ open' = [x \in DOMAIN open \ {E.x} |-> open[x]]
         /\ UNCHANGED <<n, st>>
End == /\ ~ More /\ i = Len(Hist[n]) + 1 /\ PrintT("V " \o H[n].id \o " ok") /\ i' = i + 1 /\ UNCHANGED <<n, st, open>>
Next == CallEv \/ Effect \/ RetEv \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
