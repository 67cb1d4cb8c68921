-------------------------------- MODULE Bits --------------------------------
(* lib/BitSet.fu, what a bit set is: a finite set of numbers. What each        *)
(* operation returns, and which set it leaves behind.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bool(b) == IF b THEN 1 ELSE 0
Upto(n) == 0..n-1

\* op on the set a with the number x and the other set b
Ret(o, a, x, b) ==
  CASE o = "add"     -> Bool(x \notin a)
    [] o = "remove"  -> Bool(x \in a)
    [] o = "has"     -> Bool(x \in a)
    [] o = "inter"   -> Bool(a \cap b # {})
    [] o = "missing" -> Bool(~(b \subseteq a))
    [] OTHER         -> 0
Res(o, a, x, b) ==
  CASE o = "add"     -> a \cup {x}
    [] o = "remove"  -> a \ {x}
    [] o = "addall"  -> a \cup b
    [] o = "or"      -> a \cup b
    [] o = "remall"  -> a \ b
    [] o = "range"   -> a \cup Upto(x)
    [] o = "clearto" -> {y \in a : y < x}
    [] o = "clear"   -> {}
    [] o = "negated" -> Upto(x) \ a
    [] OTHER         -> a
Asc(s) == SetToSortSeq(s, <)
=============================================================================
