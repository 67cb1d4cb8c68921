-------------------------------- MODULE Own ---------------------------------
(* Ownership of array storage and of array elements. Storage blocks and        *)
(* elements are created once and released once; nothing is released that an    *)
(* array can still show, and what no array can show any more has been          *)
(* released. State: the live blocks and elements and the ones ever created.    *)
(* A step is one array operation: the creations ("a" block, "c" element) and   *)
(* releases ("f", "d") it performed in order, then what the arrays show.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
\* elements of this trace own storage themselves (arrays of arrays)
Nested == IOEnv.NESTED = "1"

VARIABLES l, blocks, elems, used
vars == <<l, blocks, elems, used>>

Init == l = 1 /\ blocks = {} /\ elems = {} /\ used = [a |-> 0, c |-> 0]

\* creations carry increasing serial numbers; s.ok goes FALSE at the first misuse
Apply(s, e) ==
  CASE e[1] = "a" -> [s EXCEPT !.b = @ \cup {e[2]}, !.ok = @ /\ e[2] > s.ua, !.ua = e[2]]
    [] e[1] = "f" -> [s EXCEPT !.b = @ \ {e[2]}, !.ok = @ /\ e[2] \in s.b]
    [] e[1] = "c" -> [s EXCEPT !.e = @ \cup {e[2]}, !.ok = @ /\ e[2] > s.uc, !.uc = e[2]]
    [] e[1] = "d" -> [s EXCEPT !.e = @ \ {e[2]}, !.ok = @ /\ e[2] \in s.e]

RECURSIVE Fold(_, _, _)
Fold(s, ev, k) == IF k > Len(ev) THEN s ELSE Fold(Apply(s, ev[k]), ev, k + 1)

RangeOf(f) == {f[k] : k \in DOMAIN f}

Step ==
  /\ l <= Len(T)
  /\ LET r == T[l]
         s == Fold([b |-> blocks, e |-> elems, ua |-> used.a, uc |-> used.c, ok |-> TRUE], r.ev, 1)
         shown  == RangeOf(r.blk) \ {0}
         shownE == UNION {RangeOf(r.ids[k]) : k \in DOMAIN r.ids}
     IN  /\ s.ok /\ r.f = 0
         /\ IF Nested THEN shown \subseteq s.b ELSE shown = s.b
         /\ shownE = s.e
         \* one array does not show the same element twice
         /\ \A k \in DOMAIN r.ids : Cardinality(RangeOf(r.ids[k])) = Len(r.ids[k])
         /\ l = Len(T) => s.b = {} /\ s.e = {}
         /\ blocks' = s.b /\ elems' = s.e /\ used' = [a |-> s.ua, c |-> s.uc]
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Accepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(T) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
