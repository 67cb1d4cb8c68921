------------------------------- MODULE BitsRep ------------------------------
(* lib/BitSet.fu, how a bit set is kept: bytes of W bits, the last one never   *)
(* empty. Two sets, so that the operations on two sets meet each other.        *)
EXTENDS Bits
CONSTANTS W, Top          \* bits per byte; numbers are 0..Top-1

VARIABLES d, e, s, t      \* the bytes of both sets; the sets they stand for
vars == <<d, e, s, t>>

Byte(i) == (i \div W) + 1
Bit(i)  == i % W
Grow(q, n) == IF Len(q) >= n THEN q ELSE q \o [i \in 1..n - Len(q) |-> {}]
Cut(q, n)  == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
RECURSIVE Shrink(_)
Shrink(q) == IF q # <<>> /\ q[Len(q)] = {} THEN Shrink(SubSeq(q, 1, Len(q) - 1)) ELSE q
Less(a, b) == IF a < b THEN a ELSE b
Stands(q) == {i \in 0..Top - 1 : Byte(i) <= Len(q) /\ Bit(i) \in q[Byte(i)]}

Add(q, i) == LET g == Grow(q, Byte(i)) IN [g EXCEPT ![Byte(i)] = @ \cup {Bit(i)}]
AddAll(q, r) == LET g == Grow(q, Len(r)) IN [i \in DOMAIN g |-> IF i <= Len(r) THEN g[i] \cup r[i] ELSE g[i]]
RemAll(q, r) == LET n == Less(Len(q), Len(r))
                    g == [i \in DOMAIN q |-> IF i <= n THEN q[i] \ r[i] ELSE q[i]]
                IN  IF n = Len(q) THEN Shrink(g) ELSE g
Drop(q, i) == IF Len(q) < Byte(i) \/ Bit(i) \notin q[Byte(i)] THEN q
                ELSE LET g == [q EXCEPT ![Byte(i)] = @ \ {Bit(i)}] IN
                     IF g[Byte(i)] = {} /\ Len(q) = Byte(i) THEN Shrink(g) ELSE g
AddRange(q, n) == LET fl == n \div W  ce == (n + W - 1) \div W  g == Grow(q, ce)
               IN  [i \in DOMAIN g |-> IF i <= fl THEN 0..W-1
                                       ELSE IF i = fl + 1 /\ ce > fl THEN g[i] \cup 0..(n % W) - 1 ELSE g[i]]
ClearTo(q, n) == LET b == n \div W
                     g == Cut(q, IF n % W = 0 THEN b ELSE b + 1)
                 IN  Shrink([i \in DOMAIN g |-> IF i = b + 1 THEN {y \in g[i] : y < n % W} ELSE g[i]])
Negated(q, n) == RemAll(AddRange(<<>>, n), q)
Inter(q, r) == \E i \in 1..Less(Len(q), Len(r)) : q[i] \cap r[i] # {}
Missing(q, r) == Len(q) < Len(r) \/ \E i \in 1..Less(Len(q), Len(r)) : ~(r[i] \subseteq q[i])

RepRes(o, x) == CASE o = "add" -> Add(d, x) [] o = "remove" -> Drop(d, x) [] o = "addall" -> AddAll(d, e) [] o = "remall" -> RemAll(d, e)
                  [] o = "range" -> AddRange(d, x) [] o = "clearto" -> ClearTo(d, x) [] o = "negated" -> Negated(d, x)
Ops == {"add", "remove", "addall", "remall", "range", "clearto", "negated"}

Init == d = <<>> /\ e = <<>> /\ s = {} /\ t = {}
Next == \/ \E o \in Ops, x \in 0..Top : (o \in {"add", "remove"} => x < Top) /\ d' = RepRes(o, x) /\ s' = Res(o, s, x, t) /\ UNCHANGED <<e, t>>
        \/ d' = e /\ e' = d /\ s' = t /\ t' = s
Spec == Init /\ [][Next]_vars

Refines == Stands(d) = s /\ Stands(e) = t
Tight   == d = Shrink(d) /\ e = Shrink(e)              \* so that `if (set)` and has_missing need not look further
Asks    == /\ Bool(Inter(d, e)) = Ret("inter", s, 0, t)
           /\ Bool(Missing(d, e)) = Ret("missing", s, 0, t)
           /\ (d # <<>>) = (s # {})
=============================================================================
