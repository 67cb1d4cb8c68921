----------------------------- MODULE BuildTrace -----------------------------
(* Judges recorded histories of builds, edits, crashes and faults against what the cache promises (Delivered, FailsForAReason and
   "objects are found again" of BuildCache), with the real units, headers and flags.
   A history: [id, incl (unit -> headers), clean (configuration -> flags of a build from nothing), events].                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.HISTORIES)
Broken == 9                       \* a version that does not compile
VARIABLES n, i, cur, run, keys, sure
vars == <<n, i, cur, run, keys, sure>>

Hist == H[n]
Ev == Hist.events[i]
Units == DOMAIN Hist.incl
InclOf(u) == {Hist.incl[u][k] : k \in 1..Len(Hist.incl[u])}
Names == Units \cup UNION {InclOf(u) : u \in Units}
Start1 == [x \in {} |-> 0]

Key(u, vs, cfg) == <<u, vs[u], [h \in InclOf(u) |-> vs[h]], Hist.clean[cfg].units[u]>>
Quiet(r) == \A x \in Names : Cardinality(r.win[x]) = 1
Now(r) == [x \in Names |-> CHOOSE v \in r.win[x] : TRUE]

(* what a build with this record may deliver *)
Sound(r, exe) ==
    /\ DOMAIN exe.units = Units
    /\ exe.link = Hist.clean[r.cfg].link
    /\ \A u \in Units :
        LET o == exe.units[u] IN
        /\ o.flags = Hist.clean[r.cfg].units[u]
        /\ o.text \in r.win[u] /\ o.text # Broken
        /\ DOMAIN o.hdrs = InclOf(u)
        /\ \A h \in DOMAIN o.hdrs :
            /\ o.hdrs[h] \in r.win[h] /\ o.hdrs[h] # Broken
            /\ \A w \in Units : h \in DOMAIN exe.units[w].hdrs => exe.units[w].hdrs[h] = o.hdrs[h]

Excuse(r) == r.fault \/ r.overlap \/ \E x \in Names : Broken \in r.win[x] \/ (x \notin Units /\ Cardinality(r.win[x]) > 1)
Has(e, f) == f \in DOMAIN e
Others(b) == {c \in DOMAIN run : c # b /\ run[c].on}

Problem(e) ==
    IF e.e \notin {"end", "kill"} THEN ""
    ELSE LET r == run[e.b] IN
         IF Has(e, "exe") /\ ~ Sound(r, e.exe) THEN "delivers what a build from nothing would not"
         ELSE IF e.e = "kill" THEN ""
         ELSE IF e.rc = 0 /\ ~ Has(e, "exe") THEN "succeeds without delivering"
         ELSE IF e.rc # 0 /\ ~ Excuse(r) THEN "fails for no reason"
         ELSE IF sure /\ ~ r.overlap /\ ~ r.fault /\ Quiet(r) /\ \E k \in 1..Len(e.compiled) : Key(e.compiled[k], Now(r), r.cfg) \in keys
              THEN "compiles again what it has in the cache"
         ELSE ""

Begin(k) == /\ n' = k /\ i' = 1 /\ run' = Start1 /\ keys' = {} /\ sure' = TRUE
            /\ cur' = IF k <= Len(H) THEN [x \in DOMAIN H[k].incl \cup UNION {{H[k].incl[u][j] : j \in 1..Len(H[k].incl[u])} : u \in DOMAIN H[k].incl} |-> 1] ELSE Start1

Apply(e) ==
    /\ i' = i + 1 /\ n' = n
    /\ CASE e.e = "start" ->
              /\ run' = [b \in DOMAIN run \cup {e.b} |->
                           IF b = e.b THEN [on |-> TRUE, cfg |-> e.cfg, win |-> [x \in Names |-> {cur[x]}], overlap |-> Others(b) # {}, fault |-> FALSE]
                           ELSE IF run[b].on THEN [run[b] EXCEPT !.overlap = TRUE] ELSE run[b]]
              /\ sure' = (sure /\ Others(e.b) = {}) /\ UNCHANGED <<cur, keys>>
         [] e.e = "edit" ->
              /\ cur' = [cur EXCEPT ![e.x] = e.v]
              /\ run' = [b \in DOMAIN run |-> IF run[b].on THEN [run[b] EXCEPT !.win[e.x] = @ \cup {e.v}] ELSE run[b]]
              /\ UNCHANGED <<keys, sure>>
         [] e.e = "fault" -> run' = [run EXCEPT ![e.b].fault = TRUE] /\ sure' = FALSE /\ UNCHANGED <<cur, keys>>
         [] e.e = "kill" -> run' = [run EXCEPT ![e.b].on = FALSE] /\ sure' = FALSE /\ UNCHANGED <<cur, keys>>
         [] e.e = "end" ->
              /\ run' = [run EXCEPT ![e.b].on = FALSE]
              /\ keys' = IF e.rc = 0 /\ Quiet(run[e.b]) THEN keys \cup {Key(u, Now(run[e.b]), run[e.b].cfg) : u \in Units} ELSE keys
              /\ UNCHANGED <<cur, sure>>

Init == /\ n = 1 /\ i = 1 /\ run = Start1 /\ keys = {} /\ sure = TRUE
        /\ cur = [x \in DOMAIN H[1].incl \cup UNION {{H[1].incl[u][j] : j \in 1..Len(H[1].incl[u])} : u \in DOMAIN H[1].incl} |-> 1]
Next == /\ n <= Len(H)
        /\ IF i > Len(Hist.events) THEN Begin(n + 1) /\ PrintT("V " \o Hist.id \o " ok")
           ELSE LET p == Problem(Ev) IN
                IF p # "" THEN Begin(n + 1) /\ PrintT("V " \o Hist.id \o " bad " \o ToString(i) \o " " \o p)
                ELSE Apply(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================
