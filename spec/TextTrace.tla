------------------------------ MODULE TextTrace -----------------------------
(* Recorded calls: o what was called, t the type of the elements, a b c x y   *)
(* the arguments, r what came back, w what was a afterwards.                  *)
EXTENDS Text, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)

Bit(p) == IF p THEN 1 ELSE 0
Odd(x) == x % 2
Take(a, P(_)) == SelectSeq(a, P)

Right(e) ==
  LET a == e.a  b == e.b  c == e.c  x == e.x  y == e.y  same == e.w = a IN
  CASE e.o = "find"      -> same /\ e.r = Find(a, b, 0, Len(a))
    [] e.o = "find1"     -> same /\ e.r = Find(a, <<c>>, 0, Len(a))
    [] e.o = "finds"     -> same /\ e.r = Find(a, b, x, Len(a))
    [] e.o = "find1s"    -> same /\ e.r = Find(a, <<c>>, x, Len(a))
    [] e.o = "findse"    -> same /\ e.r = Find(a, b, x, y)
    [] e.o = "find1se"   -> same /\ e.r = Find(a, <<c>>, x, y)
    [] e.o = "has"       -> same /\ e.r = Bit(Find(a, b, 0, Len(a)) >= 0)
    [] e.o = "has1"      -> same /\ e.r = Bit(c \in Elems(a))
    [] e.o = "starts"    -> same /\ e.r = Bit(Starts(a, b))
    [] e.o = "starts1"   -> same /\ e.r = Bit(Starts(a, <<c>>))
    [] e.o = "ends"      -> same /\ e.r = Bit(Ends(a, b))
    [] e.o = "ends1"     -> same /\ e.r = Bit(Ends(a, <<c>>))
    [] e.o = "split"     -> same /\ e.r = Split(a, b)
    [] e.o = "split1"    -> same /\ e.r = Split(a, <<c>>)
    [] e.o = "join"      -> same /\ e.r = Join(Split(a, <<c>>), b)
    [] e.o = "join1"     -> same /\ e.r = Join(Split(a, b), <<c>>)
    [] e.o = "join0"     -> same /\ e.r = Join(Split(a, <<c>>), <<>>)
    [] e.o = "replace"   -> same /\ e.r = Replace(a, b, <<c, c>>)
    [] e.o = "replaceA1" -> same /\ e.r = Replace(a, b, <<c>>)
    [] e.o = "replaceA0" -> same /\ e.r = Replace(a, b, <<>>)
    [] e.o = "replace1A" -> same /\ e.r = Replace(a, <<c>>, b)
    [] e.o = "replace10" -> same /\ e.r = Replace(a, <<c>>, <<>>)
    [] e.o = "cmp"       -> same /\ e.r = Cmp(e.t, a, b)
    [] e.o = "eq"        -> same /\ e.r = Bit(a = b)
    [] e.o = "ne"        -> same /\ e.r = Bit(a # b)
    [] e.o = "lt"        -> same /\ e.r = Bit(Cmp(e.t, a, b) < 0)
    [] e.o = "gt"        -> same /\ e.r = Bit(Cmp(e.t, a, b) > 0)
    [] e.o = "le"        -> same /\ e.r = Bit(Cmp(e.t, a, b) <= 0)
    [] e.o = "ge"        -> same /\ e.r = Bit(Cmp(e.t, a, b) >= 0)
    [] e.o = "sort"      -> Permuted(e.w, a) /\ Sorted(e.w, LAMBDA z : Ord(e.t, z))
    [] e.o = "sortby"    -> Permuted(e.w, a) /\ Sorted(e.w, LAMBDA z : z % 3)
    [] e.o = "sortpart"  -> /\ Len(e.w) = Len(a) /\ Part(e.w, 0, x) = Part(a, 0, x) /\ Part(e.w, y, Len(a)) = Part(a, y, Len(a))
                            /\ Permuted(Part(e.w, x, y), Part(a, x, y)) /\ Sorted(Part(e.w, x, y), LAMBDA z : Ord(e.t, z))
    [] e.o = "reverse"   -> e.w = Rev(a)
    [] e.o = "revpart"   -> e.w = Part(a, 0, x) \o Rev(Part(a, x, y)) \o Part(a, y, Len(a))
    [] e.o = "partition" -> Permuted(e.w, a) /\ Part(e.w, 0, e.r) = Take(a, LAMBDA z : z % 2 = 1)
    [] e.o = "map"       -> same /\ e.r = [j \in DOMAIN a |-> a[j] + j - 1]
    [] e.o = "all"       -> same /\ e.r = Bit(\A j \in DOMAIN a : a[j] % 2 = 1)
    [] e.o = "some"      -> same /\ e.r = Bit(\E j \in DOMAIN a : a[j] % 2 = 1)
    [] e.o = "first"     -> same /\ e.r = IF a = <<>> THEN -1 ELSE a[1]
    [] e.o = "last"      -> same /\ e.r = IF a = <<>> THEN -1 ELSE a[Len(a)]
    [] e.o = "only"      -> same /\ e.r = IF Len(a) = 1 THEN a[1] ELSE -1
    [] e.o = "exists"    -> same /\ e.r = IF x \in 0..(Len(a) - 1) THEN a[x + 1] ELSE -1
    [] e.o = "ensure"    -> Len(e.w) = (IF x < Len(a) THEN Len(a) ELSE x + 1) /\ Part(e.w, 0, Len(a)) = a /\ \A j \in (Len(a) + 1)..Len(e.w) : e.w[j] = 0
    [] e.o = "removeat"  -> e.w = Part(a, 0, x) \o Part(a, y, Len(a))
    [] e.o = "stealfrom" -> e.w = Part(a, 0, x) /\ e.r = Part(a, x, Len(a))
    [] e.o = "steal"     -> e.w = Part(a, 0, x) \o Part(a, y, Len(a)) /\ e.r = Part(a, x, y)
    [] e.o = "resize"    -> e.w = IF x <= Len(a) THEN Part(a, 0, x) ELSE a \o [j \in 1..(x - Len(a)) |-> c]
    [] e.o \in {"upper", "toupper"} -> e.r = [j \in DOMAIN a |-> Up(a[j])]
    [] e.o \in {"lower", "tolower"} -> e.r = [j \in DOMAIN a |-> Low(a[j])]
    [] e.o = "letter"    -> e.r = <<Up(c), Low(c)>>
    [] e.o = "trim"      -> e.r = Trim(a)
    [] e.o = "utf8"      -> e.r = Utf8(x)
    [] e.o = "points"    -> e.r = Points(a, 0)
    [] e.o \in {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"} -> Decimal(e.r, b, x = 1)
    [] e.o = "f64"       -> Fraction(e.r, b, x, e.y = 1)

\* what the denotations have to be, whatever the calls do
Small == UNION {[1..n -> 1..2] : n \in 0..4}
Tiny == UNION {[1..n -> 1..2] : n \in 0..2}
ASSUME \A a \in Small, s \in Tiny : Join(Split(a, s), s) = a
ASSUME \A a \in Small, s \in Tiny \ {<<>>} : \A j \in DOMAIN Split(a, s) : Find(Split(a, s)[j], s, 0, Len(Split(a, s)[j])) = -1
ASSUME \A a \in Small, b \in Small : (Cmp("i", a, b) = 0 <=> a = b) /\ Cmp("i", a, b) = -Cmp("i", b, a)
ASSUME \A a \in Tiny, b \in Tiny, c \in Tiny : Cmp("i", a, b) <= 0 /\ Cmp("i", b, c) <= 0 => Cmp("i", a, c) <= 0
ASSUME \A c \in {0, 65, 127, 128, 233, 2047, 2048, 8364, 65535, 65536, 127936, 1114111} :
         Points(Utf8(c), 0) = <<<<1, c, Len(Utf8(c)) - 1>>>>

VARIABLES h, l, st
vars == <<h, l, st>>
Init == h \in 1..Len(T) /\ l = 1 /\ st = "run"
More == st = "run" /\ l <= Len(T[h].ops)
Next == /\ More
        /\ IF Right(T[h].ops[l]) THEN l' = l + 1 /\ UNCHANGED <<h, st>> ELSE st' = "bad" /\ UNCHANGED <<h, l>>
Spec == Init /\ [][Next]_vars
Report == More \/ PrintT("V " \o ToString(h) \o " " \o st \o " " \o ToString(l))
=============================================================================
