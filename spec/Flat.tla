-------------------------------- MODULE Flat --------------------------------
(* src/flat.fu, what sorted sets, maps and counted sets are: finite sets of    *)
(* numbers, finite functions, and finite functions into 1, 2, ...              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bool(b) == IF b THEN 1 ELSE 0
Asc(s)  == SetToSortSeq(s, <)

\* sets: op on a with the key x and the other set b
Ret(o, a, x, b) ==
  CASE o = "add"    -> Bool(x \notin a)
    [] o = "remove" -> Bool(x \in a)
    [] o = "has"    -> Bool(x \in a)
    [] o = "hasinter" -> Bool(a \cap b # {})
    [] o = "misses" -> Bool(~(b \subseteq a))
    [] OTHER        -> 0
Res(o, a, x, b) ==
  CASE o = "add"    -> a \cup {x}
    [] o = "remove" -> a \ {x}
    [] o \in {"addall", "union"}  -> a \cup b
    [] o \in {"keepall", "inter"} -> a \cap b
    [] o \in {"remall", "diff"}   -> a \ b
    [] o = "clear"  -> {}
    [] o = "copy"   -> b
    [] OTHER        -> a

\* maps: op on m with the key k, the value v, and the initial value i
Has(m, k)  == k \in DOMAIN m
Val(m, k, i) == IF Has(m, k) THEN m[k] ELSE i
Set(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k)  == [x \in DOMAIN m \ {k} |-> m[x]]
MRet(o, m, k, v, i) ==
  CASE o = "set" -> Bool(~Has(m, k))
    [] o = "get" -> Val(m, k, 0)
    [] o = "has" -> Bool(Has(m, k))
    [] o = "ref" -> Val(m, k, i) + v
    [] o \in {"if", "try"}  -> IF Has(m, k) THEN m[k] + v ELSE -1             \* try: like ref, but what gives the value throws or jumps away
    [] o = "fail" -> -1                                                       \* like if, and then throws
    [] o \in {"ifrem", "rem"} -> Bool(Has(m, k))
    [] OTHER     -> 0
MRes(o, m, k, v, i) ==
  CASE o = "set" -> Set(m, k, v)
    [] o = "ref" -> Set(m, k, Val(m, k, i) + v)
    [] o \in {"if", "try", "fail"} -> IF Has(m, k) THEN Set(m, k, m[k] + v) ELSE m
    [] o \in {"ifrem", "rem"} -> Del(m, k)
    [] o = "clear" -> <<>>
    [] OTHER     -> m
\* counted sets
CRet(o, m, k) ==
  CASE o = "incr"  -> Bool(~Has(m, k))
    [] o = "decr"  -> Bool(Val(m, k, 0) = 1)
    [] o = "count" -> Val(m, k, 0)
    [] o = "total" -> FoldSeq(LAMBDA p, q : p + q, 0, [j \in DOMAIN Asc(DOMAIN m) |-> m[Asc(DOMAIN m)[j]]])
    [] OTHER       -> 0
CRes(o, m, k) ==
  CASE o = "incr" -> Set(m, k, Val(m, k, 0) + 1)
    [] o = "decr" -> IF Val(m, k, 0) = 1 THEN Del(m, k) ELSE IF Has(m, k) THEN Set(m, k, m[k] - 1) ELSE m
    [] o = "rem"  -> Del(m, k)
    [] o = "clear" -> <<>>
    [] OTHER      -> m
Entries(m) == [j \in DOMAIN Asc(DOMAIN m) |-> <<Asc(DOMAIN m)[j], m[Asc(DOMAIN m)[j]]>>]
=============================================================================
