------------------------------ MODULE ParTrace ------------------------------
(* Judges recorded runs of the real parallel_for and of the real lock-free stack: what ParFor promises (every element is visited
   once, in batches no smaller than asked for, a call returns when all of its visits have ended, nothing is used after its end of
   life, everything comes to an end), and that no two threads use the same plain memory without a synchronization in between.
   The latter by the rules of the C++ memory model: clocks travel from a release operation to the acquire operations that read
   from it or from the read-modify-writes after it, and from an unlock to the locks after it.
   A run: [id, n (threads), ev]; an event: [t, k, a (acquires), r (releases), x, y, z].                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, i, clock, gained, fenced, rel, wrote, read, calls
vars == <<n, i, clock, gained, fenced, rel, wrote, read, calls>>

Ev == H[n].ev[i]
T == 1..H[n].n
None == << >>
Max(a, b) == IF a > b THEN a ELSE b
(* a clock is a sequence; the shorter one stands for zeros, which saves most of the work *)
Join(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE [t \in DOMAIN a |-> Max(a[t], b[t])]
At(c, t) == IF c = None THEN 0 ELSE c[t]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE None
Put(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE f @@ (x :> v)
Only(t, v) == [u \in T |-> IF u = t THEN v ELSE 0]
Tick(c, t) == [c EXCEPT ![t][t] = @ + 1]
Before(c, d) == c = None \/ \A t \in T : c[t] <= d[t]

Fresh(k) == IF k > Len(H) THEN << >> ELSE [t \in 1..H[k].n |-> [u \in 1..H[k].n |-> IF t = u THEN 1 ELSE 0]]
NoClocks(k) == IF k > Len(H) THEN << >> ELSE [t \in 1..H[k].n |-> None]
Empty == [x \in {} |-> None]

Least(a, b) == IF a < b THEN a ELSE b
Overlap(b, s, e) == Max(b[1], s) < Least(b[2], e)

Problem(e) ==
    CASE e.k = "rd" -> IF Before(Get(wrote, e.x), clock[e.t]) THEN "" ELSE "reads what another thread may be writing"
      [] e.k = "wr" -> IF ~ Before(Get(wrote, e.x), clock[e.t]) THEN "writes what another thread may be writing"
                       ELSE IF ~ Before(Get(read, e.x), clock[e.t]) THEN "writes what another thread may be reading" ELSE ""
      [] e.k = "begin" ->
            IF e.x \notin DOMAIN calls THEN "visits after the call has returned"
            ELSE LET c == calls[e.x] IN
                 IF e.y < 0 \/ e.z > c.n \/ e.y > e.z THEN "visits what is not in the range"
                 ELSE IF e.z - e.y < Least(c.n, c.min) THEN "takes fewer at a time than asked for"
                 ELSE IF \E k \in 1..Len(c.b) : Overlap(c.b[k], e.y, e.z) THEN "visits something twice" ELSE ""
      [] e.k = "end" -> IF e.x \notin DOMAIN calls THEN "visits after the call has returned" ELSE ""
      [] e.k = "ret" -> LET c == calls[e.x] IN
                        IF c.open > 0 THEN "returns before all visits have ended" ELSE IF c.seen # c.n THEN "returns without having visited everything" ELSE ""
      [] e.k = "dead" -> "uses something after its end of life"
      [] e.k = "fate" -> CASE e.a = 1 -> "nobody can go on" [] e.a = 2 -> "does not come to an end" [] e.a = 4 -> "does not give everything back" [] e.a = 9 -> "crashes" [] OTHER -> "goes on and on"
      [] OTHER -> ""

Apply(e) ==
    LET t == e.t c == clock[t] IN
    /\ i' = i + 1 /\ n' = n
    /\ CASE e.k = "load" ->
              LET l == Get(rel, e.x) IN
              IF e.a = 1 THEN clock' = [clock EXCEPT ![t] = Join(c, l)] /\ UNCHANGED <<gained, fenced, rel, wrote, read, calls>>
              ELSE gained' = [gained EXCEPT ![t] = Join(@, l)] /\ UNCHANGED <<clock, fenced, rel, wrote, read, calls>>
         [] e.k = "store" ->
              /\ rel' = Put(rel, e.x, IF e.r = 1 THEN c ELSE fenced[t])
              /\ clock' = IF e.r = 1 THEN Tick(clock, t) ELSE clock
              /\ UNCHANGED <<gained, fenced, wrote, read, calls>>
         [] e.k = "rmw" ->
              LET l == Get(rel, e.x) d == IF e.a = 1 THEN Join(c, l) ELSE c IN
              /\ rel' = Put(rel, e.x, Join(l, IF e.r = 1 THEN d ELSE fenced[t]))
              /\ gained' = IF e.a = 1 THEN gained ELSE [gained EXCEPT ![t] = Join(@, l)]
              /\ clock' = IF e.r = 1 THEN Tick([clock EXCEPT ![t] = d], t) ELSE [clock EXCEPT ![t] = d]
              /\ UNCHANGED <<fenced, wrote, read, calls>>
         [] e.k = "fence" ->
              LET d == IF e.a = 1 THEN Join(c, gained[t]) ELSE c IN
              /\ fenced' = IF e.r = 1 THEN [fenced EXCEPT ![t] = d] ELSE fenced
              /\ clock' = IF e.r = 1 THEN Tick([clock EXCEPT ![t] = d], t) ELSE [clock EXCEPT ![t] = d]
              /\ UNCHANGED <<gained, rel, wrote, read, calls>>
         [] e.k = "lock" -> clock' = [clock EXCEPT ![t] = Join(c, Get(rel, e.x))] /\ UNCHANGED <<gained, fenced, rel, wrote, read, calls>>
         [] e.k = "unlock" -> rel' = Put(rel, e.x, c) /\ clock' = Tick(clock, t) /\ UNCHANGED <<gained, fenced, wrote, read, calls>>
         [] e.k = "spawn" -> clock' = Tick([clock EXCEPT ![e.x] = Join(@, c)], t) /\ UNCHANGED <<gained, fenced, rel, wrote, read, calls>>
         [] e.k = "rd" -> read' = Put(read, e.x, [u \in T |-> IF u = t THEN c[t] ELSE At(Get(read, e.x), u)]) /\ UNCHANGED <<clock, gained, fenced, rel, wrote, calls>>
         [] e.k = "wr" -> wrote' = Put(wrote, e.x, Only(t, c[t])) /\ UNCHANGED <<clock, gained, fenced, rel, read, calls>>
         [] e.k = "call" -> calls' = (e.x :> [n |-> e.y, min |-> e.z, b |-> <<>>, open |-> 0, seen |-> 0]) @@ calls /\ UNCHANGED <<clock, gained, fenced, rel, wrote, read>>
         [] e.k = "begin" -> /\ calls' = [calls EXCEPT ![e.x].b = Append(@, <<e.y, e.z>>), ![e.x].open = @ + 1, ![e.x].seen = @ + (e.z - e.y)]
                             /\ UNCHANGED <<clock, gained, fenced, rel, wrote, read>>
         [] e.k = "end" -> calls' = [calls EXCEPT ![e.x].open = @ - 1] /\ UNCHANGED <<clock, gained, fenced, rel, wrote, read>>
         [] e.k = "ret" -> calls' = [c2 \in DOMAIN calls \ {e.x} |-> calls[c2]] /\ UNCHANGED <<clock, gained, fenced, rel, wrote, read>>
         [] OTHER -> UNCHANGED <<clock, gained, fenced, rel, wrote, read, calls>>

Start(k) == /\ clock' = Fresh(k) /\ gained' = NoClocks(k) /\ fenced' = NoClocks(k)
            /\ rel' = Empty /\ wrote' = Empty /\ read' = Empty /\ calls' = Empty
Init == /\ n = 1 /\ i = 1 /\ clock = Fresh(1) /\ gained = NoClocks(1) /\ fenced = NoClocks(1)
        /\ rel = Empty /\ wrote = Empty /\ read = Empty /\ calls = Empty
Verdict(s) == PrintT("V " \o H[n].id \o " " \o s) /\ n' = n + 1 /\ i' = 1 /\ Start(n + 1)
Next == /\ n <= Len(H)
        /\ IF i > Len(H[n].ev) THEN Verdict(IF DOMAIN calls = {} THEN "ok" ELSE "bad " \o ToString(i) \o " never returns")
           ELSE LET p == Problem(Ev) IN IF p # "" THEN Verdict("bad " \o ToString(i) \o " " \o p) ELSE Apply(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================
