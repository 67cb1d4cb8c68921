------------------------------- MODULE FlatRep ------------------------------
(* src/flat.fu, how sorted sets are kept and merged: binary search in an       *)
(* ascending sequence; merges that walk two of them side by side, in place or  *)
(* into a result that is begun only when the left one cannot be taken whole.   *)
EXTENDS Flat
CONSTANTS Keys
VARIABLES a, b, s, t      \* two ascending sequences, the two sets they stand for
vars == <<a, b, s, t>>

Put(q, i, k) == SubSeq(q, 1, i - 1) \o <<k>> \o SubSeq(q, i, Len(q))     \* insert before i
Cut(q, i)    == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* the position of k, or where it would go
RECURSIVE Find(_, _, _, _)
Find(q, k, lo, hi) ==
  IF lo >= hi THEN <<0, lo + 1>>
  ELSE LET i == (lo + hi) \div 2 IN
       IF q[i + 1] = k THEN <<1, i + 1>> ELSE IF q[i + 1] < k THEN Find(q, k, i + 1, hi) ELSE Find(q, k, lo, i)
Look(q, k) == Find(q, k, 0, Len(q))
Add(q, k)  == LET f == Look(q, k) IN IF f[1] = 1 THEN q ELSE Put(q, f[2], k)
Drop(q, k) == LET f == Look(q, k) IN IF f[1] = 1 THEN Cut(q, f[2]) ELSE q

RECURSIVE AddAll(_, _, _, _)
AddAll(q, r, x, y) ==
  IF x <= Len(q) /\ y <= Len(r)
  THEN IF q[x] > r[y] THEN AddAll(Put(q, x, r[y]), r, x + 1, y + 1)
       ELSE AddAll(q, r, x + 1, IF q[x] = r[y] THEN y + 1 ELSE y)
  ELSE q \o SubSeq(r, y, Len(r))
RECURSIVE KeepAll(_, _, _, _)
KeepAll(q, r, x, y) ==
  IF x <= Len(q) /\ y <= Len(r)
  THEN IF q[x] = r[y] THEN KeepAll(q, r, x + 1, y + 1)
       ELSE IF q[x] > r[y] THEN KeepAll(q, r, x, y + 1)
       ELSE KeepAll(Cut(q, x), r, x, y)
  ELSE SubSeq(q, 1, x - 1)
RECURSIVE RemAll(_, _, _, _)
RemAll(q, r, x, y) ==
  IF x <= Len(q) /\ y <= Len(r)
  THEN IF q[x] = r[y] THEN RemAll(Cut(q, x), r, x, y + 1)
       ELSE IF q[x] > r[y] THEN RemAll(q, r, x, y + 1)
       ELSE RemAll(q, r, x + 1, y)
  ELSE q

\* merge: what it calls, in order: <<"l" | "r" | "b", item, position in left, position in right>>
RECURSIVE Merge(_, _, _, _)
Merge(l, r, i, j) ==
  IF i > Len(l) /\ j > Len(r) THEN <<>>
  ELSE IF j > Len(r) \/ (i <= Len(l) /\ l[i] < r[j]) THEN <<<<"l", l[i], i, j>>>> \o Merge(l, r, i + 1, j)
  ELSE IF i > Len(l) \/ l[i] > r[j] THEN <<<<"r", r[j], i, j>>>> \o Merge(l, r, i, j + 1)
  ELSE <<<<"b", l[i], i, j>>>> \o Merge(l, r, i + 1, j + 1)
\* calls that bring about the result, calls that go into it, the position where it starts
Gather(calls, whole, starts, takes, pos) ==
  LET n == {k \in DOMAIN calls : calls[k][1] \in starts} IN
  IF n = {} THEN whole
  ELSE LET k == CHOOSE k \in n : \A j \in n : k <= j
           f == SubSeq(whole, 1, calls[k][pos] - 1)
           g == SelectSeq(SubSeq(calls, k, Len(calls)), LAMBDA c : c[1] \in takes)
       IN  f \o [j \in DOMAIN g |-> g[j][2]]
Inter(l, r) == LET x == IF Len(r) < Len(l) THEN r ELSE l  y == IF Len(r) < Len(l) THEN l ELSE r
               IN  Gather(Merge(x, y, 1, 1), x, {"l"}, {"b"}, 3)
Union(l, r) == LET x == IF Len(r) > Len(l) THEN r ELSE l  y == IF Len(r) > Len(l) THEN l ELSE r
               IN  Gather(Merge(x, y, 1, 1), x, {"r"}, {"l", "b", "r"}, 3)
Diff(f, r)  == Gather(Merge(r, f, 1, 1), f, {"l", "b"}, {"r"}, 4)
Calls(l, r, k) == \E j \in DOMAIN Merge(l, r, 1, 1) : Merge(l, r, 1, 1)[j][1] = k

RepRes(o, k) == CASE o = "add" -> Add(a, k) [] o = "remove" -> Drop(a, k)
                  [] o = "addall" -> AddAll(a, b, 1, 1) [] o = "keepall" -> KeepAll(a, b, 1, 1) [] o = "remall" -> RemAll(a, b, 1, 1)
                  [] o = "inter" -> Inter(a, b) [] o = "union" -> Union(a, b) [] o = "diff" -> Diff(a, b)
Ops == {"add", "remove", "addall", "keepall", "remall", "inter", "union", "diff"}
Init == a = <<>> /\ b = <<>> /\ s = {} /\ t = {}
Next == \/ \E o \in Ops, k \in Keys : a' = RepRes(o, k) /\ s' = Res(o, s, k, t) /\ UNCHANGED <<b, t>>
        \/ a' = b /\ b' = a /\ s' = t /\ t' = s
Spec == Init /\ [][Next]_vars
Refines == a = Asc(s) /\ b = Asc(t)
Asks    == /\ \A k \in Keys : (Look(a, k)[1] = 1) = (k \in s)
           /\ Bool(Calls(a, b, "b")) = Ret("hasinter", s, 0, t)
           /\ Bool(Calls(a, b, "r")) = Ret("misses", s, 0, t)
=============================================================================
