----------------------------- MODULE HashMapRep -----------------------------
(* lib/hash.fu, how the map is kept: an index of slots (hash, position in the  *)
(* data) probed from the slot the hash names, ordered so that no entry is      *)
(* farther from its slot than one it displaced could be (robin hood), chains   *)
(* of entries with equal hashes, deletion by moving later slots back and the   *)
(* last data entry into the gap. Slots are numbered from 0, positions from 1.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Hashes, Emitting
VARIABLES hf,      \* the hash of each key
          ix, da,  \* the index and the data
          m        \* the map it stands for
vars == <<hf, ix, da, m>>

Log2(n) == CHOOSE k \in 0..20 : 2 ^ k = n
N(x)    == Len(x)
Probes(x) == IF N(x) = 0 THEN 0 ELSE Log2(N(x))
Empty   == [h |-> 0, p |-> 0]
At(x, i) == x[(i % N(x)) + 1]
Put(x, i, e) == [x EXCEPT ![(i % N(x)) + 1] = e]
Dist(x, i, hash) == (i - hash) % N(x)

---------------------------------------------------------------------------
\* the search for a key: where it is, or where it may go

RECURSIVE Chain(_, _, _, _)
Chain(d, p, prev, k) ==
  IF p = 0 THEN [f |-> FALSE] ELSE IF d[p].k = k THEN [f |-> TRUE, p |-> p, prev |-> prev] ELSE Chain(d, d[p].c, p, k)

RECURSIVE Route(_, _, _, _, _, _)
Route(x, d, k, hash, probe, fair) ==
  IF probe >= Probes(x) THEN [t |-> "full"]
  ELSE LET i == (hash + probe) % N(x)   e == At(x, i) IN
       IF e.p = 0 THEN [t |-> "free", i |-> i, fair |-> IF fair = -1 THEN i ELSE fair]
       ELSE IF e.h = hash
         THEN LET c == Chain(d, e.p, 0, k) IN
              IF c.f THEN [t |-> "found", i |-> i, p |-> c.p, prev |-> c.prev] ELSE [t |-> "free", i |-> i, fair |-> i]
       ELSE Route(x, d, k, hash, probe + 1, IF probe > Dist(x, i, e.h) /\ fair = -1 THEN i ELSE fair)

Find(x, d, k) == Route(x, d, k, hf[k], 0, -1)

\* moves the slots from fair up to i - 1 one up, and frees fair
RECURSIVE Shift(_, _, _)
Shift(x, i, fair) == IF i = fair THEN Put(x, i, Empty) ELSE Shift(Put(x, i, At(x, i - 1)), (i - 1) % N(x), fair)
MakeFair(x, i, fair) == IF i = fair THEN x ELSE Shift(x, i, fair)

\* moves slots that are not where they want to be into the gap at i
RECURSIVE Compact(_, _)
Compact(x, i) ==
  LET j == (i + 1) % N(x)   o == At(x, j) IN
  IF Dist(x, j, o.h) = 0 \/ o.p = 0 THEN x ELSE Compact(Put(Put(x, i, o), j, At(x, i)), j)

\* twice the slots; entries that the wider mask sends elsewhere go there
RECURSIVE Gap(_, _, _)
Gap(x, j, i) == IF At(x, j).p = 0 THEN [j |-> j, ok |-> TRUE]
                ELSE LET j1 == (j + 1) % N(x) IN IF j1 = i THEN [j |-> j1, ok |-> FALSE] ELSE Gap(x, j1, i)
Swap(x, i, j) == Put(Put(x, i, At(x, j)), j, At(x, i))
RECURSIVE Settle(_, _, _)
Settle(x, j, ideal) ==
  LET q == (j - 1) % N(x) IN
  IF j # ideal /\ 1 + Dist(x, q, At(x, q).h) < (j - ideal) % N(x) THEN Settle(Swap(x, j, q), q, ideal) ELSE [x |-> x, j |-> j]

RECURSIVE Rehash(_, _, _, _)
Rehash(x, probe, oldlen, oldprobes) ==
  IF probe >= oldlen THEN x
  ELSE LET i == (probe + oldprobes) % oldlen
           e == At(x, i)
           ideal == e.h % N(x)
       IN  IF (ideal >= oldlen \/ (i - ideal) % N(x) >= Probes(x)) /\ e.p # 0
           THEN LET g == Gap(x, ideal, i) IN
                IF ~g.ok THEN Rehash(x, probe + 1, oldlen, oldprobes)
                ELSE LET s == Settle(x, g.j, ideal) IN
                     Rehash(Compact(Swap(s.x, i, s.j), i), probe, oldlen, oldprobes)
           ELSE Rehash(x, probe + 1, oldlen, oldprobes)
Grow(x) == LET n == IF N(x) = 0 THEN 2 ELSE 2 * N(x) IN
           Rehash([i \in 1..n |-> IF i <= N(x) THEN x[i] ELSE Empty], 0, N(x), Probes(x))

RECURSIVE Insert(_, _, _, _)
Insert(x, d, k, v) ==
  LET r == Find(x, d, k) IN
  CASE r.t = "found" -> [x |-> x, d |-> [d EXCEPT ![r.p].v = v]]
    [] r.t = "free"  -> LET y == MakeFair(x, r.i, r.fair) IN
                        [x |-> Put(y, r.fair, [h |-> hf[k], p |-> Len(d) + 1]),
                         d |-> Append(d, [k |-> k, v |-> v, h |-> hf[k], c |-> At(y, r.fair).p])]
    [] r.t = "full"  -> Insert(Grow(x), d, k, v)

\* the slot and the chain that lead to position p now lead to q
RECURSIVE Redirect(_, _, _, _, _)
Redirect(x, d, p, q, probe) ==
  LET i == (d[q].h + probe) % N(x)   e == At(x, i) IN
  IF probe >= Probes(x) THEN [x |-> x, d |-> d]
  ELSE IF e.p = 0 \/ e.h # d[q].h THEN Redirect(x, d, p, q, probe + 1)
  ELSE IF e.p = p THEN [x |-> Put(x, i, [e EXCEPT !.p = q]), d |-> d]
  ELSE [x |-> x, d |-> [j \in DOMAIN d |-> IF d[j].c = p /\ d[j].h = d[q].h THEN [d[j] EXCEPT !.c = q] ELSE d[j]]]

Remove(x, d, k) ==
  LET r == Find(x, d, k) IN
  IF r.t # "found" THEN [x |-> x, d |-> d]
  ELSE LET nx == d[r.p].c
           x1 == IF r.prev # 0 THEN x ELSE Put(x, r.i, [At(x, r.i) EXCEPT !.p = nx])
           d1 == IF r.prev # 0 THEN [d EXCEPT ![r.prev].c = nx] ELSE d
           x2 == IF r.prev = 0 /\ nx = 0 THEN Compact(x1, r.i) ELSE x1
           n  == Len(d)
           d2 == [d1 EXCEPT ![r.p] = d1[n], ![n] = d1[r.p]]
           z  == IF r.p = n THEN [x |-> x2, d |-> d1] ELSE Redirect(x2, d2, n, r.p, 0)
       IN  [x |-> z.x, d |-> SubSeq(z.d, 1, n - 1)]

---------------------------------------------------------------------------
\* keys are interchangeable, so their hashes may as well ascend
Init == /\ hf \in {f \in [Keys -> Hashes] : \A a, b \in Keys : a < b => f[a] <= f[b]}
        /\ ix = <<>> /\ da = <<>> /\ m = {}

\* what became of it; where Emitting, also as a line for replay
Id(x, d) == [x |-> [i \in DOMAIN x |-> <<x[i].h, x[i].p>>], d |-> [i \in DOMAIN d |-> <<d[i].k, d[i].c>>]]
Step(o, k, x, d, s) ==
  /\ ix' = x /\ da' = d /\ m' = s /\ UNCHANGED hf
  /\ Emitting => PrintT("E " \o ToJson([h |-> [j \in 1..Cardinality(Keys) |-> hf[j]], a |-> Id(ix, da), b |-> Id(x, d), o |-> o, k |-> k]))

DoSet(k) == LET r == Insert(ix, da, k, 0) IN Step(1, k, r.x, r.d, m \cup {k})
DoRem(k) == k \in m /\ LET r == Remove(ix, da, k) IN Step(-1, k, r.x, r.d, m \ {k})
DoMiss(k) == k \notin m /\ LET r == Remove(ix, da, k) IN Step(0, k, r.x, r.d, m)
\* an insertion that comes to nothing: what gives the value throws or jumps away. The index may have grown by then.
RECURSIVE Room(_, _, _)
Room(x, d, k) == IF Find(x, d, k).t = "full" THEN Room(Grow(x), d, k) ELSE x
DoTry(k) == k \notin m /\ Step(2, k, Room(ix, da, k), da, m)
Next == \E k \in Keys : DoSet(k) \/ DoRem(k) \/ DoMiss(k) \/ DoTry(k)
Spec == Init /\ [][Next]_vars

\* each key is found exactly when it is in the map
Refines == /\ \A k \in Keys : (Find(ix, da, k).t = "found") = (k \in m)
           /\ {da[j].k : j \in DOMAIN da} = m /\ Len(da) = Cardinality(m)
\* no slot is farther from where it wants to be than a search looks, nor than its neighbour allows
InPlace == \A i \in 0..N(ix)-1 :
             LET e == At(ix, i)  b == At(ix, i - 1) IN
             e.p # 0 => /\ Dist(ix, i, e.h) < Probes(ix)
                        /\ (Dist(ix, i, e.h) > 0 => b.p # 0 /\ Dist(ix, i, e.h) <= Dist(ix, i - 1, b.h) + 1)
=============================================================================
