----------------------------- MODULE BuildCache -----------------------------
(* The object and executable cache of src/build.fu as a protocol between builders, an editor and crashes.
   A builder hashes the headers (stat, then read), looks for objects under <<text, headers, flags>>, compiles what is missing into
   a temporary, checks that no header it hashed has been touched since, moves the temporaries into the cache, links, moves the
   executable into the cache and from there to where the user wants it.
   Sound: whatever is in the cache under a key is what the key says; what a builder delivers was current while it ran.          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Builders, Flags, MaxEdits, MaxKills, MaxStarts, Variant

Units == {"u1", "u2"}
Hdrs == {"h1", "h2"}
Incl == [u \in Units |-> IF u = "u1" THEN {"h1"} ELSE {"h1", "h2"}]
Hashed == IF Variant = "nohash" THEN {"h1"} ELSE Hdrs              \* a header the hash stage does not know about
None == [none |-> TRUE]

VARIABLES starts, hdr,      \* header -> its contents (1 or 2) and the time of the last write
          clock, edits, kills,
          cpp,      \* units whose source is there for the compiler to read
          objs,     \* {<<key, contents>>}
          exes,     \* {<<key, contents>>}
          b         \* builder -> its local state
vars == <<starts, hdr, clock, edits, kills, cpp, objs, exes, b>>

Contents(u, vs, f) == [u |-> u, f |-> f, h |-> [h \in Incl[u] |-> vs[h]]]
Key(u, vs, f) == [u |-> u, f |-> IF Variant = "noflags" THEN 0 ELSE f, h |-> [h \in Incl[u] \cap Hashed |-> vs[h]]]
ExeKey(vs, f) == [u \in Units |-> Key(u, vs, f)]

Idle == [pc |-> "idle", f |-> 0, done |-> {}, stat |-> [h \in Hdrs |-> 0], read |-> [h \in Hdrs |-> 0],
         tmp |-> [u \in Units |-> None], cur |-> None, win |-> [h \in Hdrs |-> {}], exe |-> None, wrote |-> {}]

Init == /\ hdr = [h \in Hdrs |-> [v |-> 1, t |-> 1]]
        /\ starts = 0 /\ clock = 1 /\ edits = 0 /\ kills = 0 /\ cpp = {} /\ objs = {} /\ exes = {}
        /\ b = [i \in Builders |-> Idle]

Edit(h) ==
    /\ edits < MaxEdits
    /\ edits' = edits + 1 /\ clock' = clock + 1
    /\ hdr' = [hdr EXCEPT ![h] = [v |-> 3 - hdr[h].v, t |-> clock + 1]]
    /\ b' = [i \in Builders |-> IF b[i].pc = "idle" THEN b[i] ELSE [b[i] EXCEPT !.win[h] = @ \cup {3 - hdr[h].v}]]
    /\ UNCHANGED <<starts, kills, cpp, objs, exes>>

Kill(i) ==
    /\ kills < MaxKills /\ b[i].pc \notin {"idle", "ok", "failed"}
    /\ kills' = kills + 1
    /\ b' = [b EXCEPT ![i] = Idle]
    /\ UNCHANGED <<starts, hdr, clock, edits, cpp, objs, exes>>

Start(i) ==
    /\ b[i].pc \in {"idle", "ok", "failed"} /\ starts < MaxStarts /\ starts' = starts + 1
    /\ \E f \in Flags : b' = [b EXCEPT ![i] = [Idle EXCEPT !.pc = "hash", !.f = f, !.win = [h \in Hdrs |-> {hdr[h].v}]]]
    /\ UNCHANGED <<hdr, clock, edits, kills, cpp, objs, exes>>

Set(i, r) == b' = [b EXCEPT ![i] = r]
Env == UNCHANGED <<starts, hdr, clock, edits, kills>>
NextH(i) == CHOOSE h \in Hashed \ b[i].done : TRUE
NextU(i) == CHOOSE u \in Units \ b[i].done : TRUE

(* stat before read, so that an edit in between shows in the crosscheck *)
First(i) ==
    /\ b[i].pc = "hash" /\ Env /\ UNCHANGED <<cpp, objs, exes>>
    /\ IF b[i].done = Hashed THEN Set(i, [b[i] EXCEPT !.pc = "units", !.done = {}])
       ELSE LET h == NextH(i) IN
            IF Variant = "statlate" THEN Set(i, [b[i] EXCEPT !.pc = "hash2", !.read[h] = hdr[h].v])
            ELSE Set(i, [b[i] EXCEPT !.pc = "hash2", !.stat[h] = hdr[h].t])
Second(i) ==
    /\ b[i].pc = "hash2" /\ Env /\ UNCHANGED <<cpp, objs, exes>>
    /\ LET h == NextH(i) IN
       IF Variant = "statlate" THEN Set(i, [b[i] EXCEPT !.pc = "hash", !.done = @ \cup {h}, !.stat[h] = hdr[h].t])
       ELSE Set(i, [b[i] EXCEPT !.pc = "hash", !.done = @ \cup {h}, !.read[h] = hdr[h].v])

ProbeExe(i) ==
    /\ b[i].pc = "units" /\ b[i].done = {} /\ b[i].cur = None
    /\ \E e \in exes : e[1] = ExeKey(b[i].read, b[i].f)
    /\ Set(i, [b[i] EXCEPT !.pc = "move"]) /\ Env /\ UNCHANGED <<cpp, objs, exes>>

Probe(i) ==
    /\ b[i].pc = "units" /\ (b[i].done # {} \/ ~ \E e \in exes : e[1] = ExeKey(b[i].read, b[i].f))
    /\ Env /\ UNCHANGED <<objs, exes>>
    /\ IF b[i].done = Units THEN Set(i, [b[i] EXCEPT !.pc = "check", !.done = {}]) /\ UNCHANGED cpp
       ELSE LET u == NextU(i) IN
            IF \E o \in objs : o[1] = Key(u, b[i].read, b[i].f)
            THEN Set(i, [b[i] EXCEPT !.done = @ \cup {u}]) /\ UNCHANGED cpp
            ELSE Set(i, [b[i] EXCEPT !.pc = "cc", !.cur = [h \in {} |-> 0], !.wrote = @ \cup {u}]) /\ cpp' = cpp \cup {u}

(* the compiler opens the source, then one header after the other *)
Compile(i) ==
    /\ b[i].pc = "cc" /\ Env /\ UNCHANGED <<cpp, objs, exes>>
    /\ LET u == NextU(i)  got == b[i].cur  left == Incl[u] \ DOMAIN got IN
       IF DOMAIN got = {} /\ u \notin cpp THEN Set(i, [b[i] EXCEPT !.pc = "cleanup", !.exe = None, !.done = {}])
       ELSE IF left # {} THEN LET h == CHOOSE h \in left : TRUE IN
                              Set(i, [b[i] EXCEPT !.cur = [x \in DOMAIN got \cup {h} |-> IF x = h THEN hdr[h].v ELSE got[x]]])
       ELSE Set(i, [b[i] EXCEPT !.pc = "units", !.done = @ \cup {u}, !.cur = None, !.tmp[u] = [u |-> u, f |-> b[i].f, h |-> got]])

Built(i) == {u \in Units : b[i].tmp[u] # None}

Check(i) ==
    /\ b[i].pc = "check" /\ Env /\ UNCHANGED <<cpp, objs, exes>>
    /\ IF Built(i) = {} \/ Variant = "nocross" \/ b[i].done = Hashed THEN Set(i, [b[i] EXCEPT !.pc = "put", !.done = {}])
       ELSE LET h == NextH(i) IN
            IF hdr[h].t = b[i].stat[h] THEN Set(i, [b[i] EXCEPT !.done = @ \cup {h}])
            ELSE Set(i, [b[i] EXCEPT !.pc = "cleanup", !.done = {}])

Put(i) ==
    /\ b[i].pc = "put" /\ Env /\ UNCHANGED <<cpp, exes>>
    /\ IF Built(i) = {} THEN Set(i, [b[i] EXCEPT !.pc = "link"]) /\ UNCHANGED objs
       ELSE LET u == CHOOSE u \in Built(i) : TRUE  k == Key(u, b[i].read, b[i].f) IN
            /\ objs' = {o \in objs : o[1] # k} \cup {<<k, b[i].tmp[u]>>}
            /\ Set(i, [b[i] EXCEPT !.tmp[u] = None])

Link(i) ==
    /\ b[i].pc = "link" /\ Env /\ UNCHANGED <<cpp, objs, exes>>
    /\ LET ks == ExeKey(b[i].read, b[i].f) IN
       Set(i, [b[i] EXCEPT !.pc = "putexe", !.exe = [u \in Units |-> (CHOOSE o \in objs : o[1] = ks[u])[2]]])

PutExe(i) ==
    /\ b[i].pc = "putexe" /\ Env /\ UNCHANGED <<cpp, objs>>
    /\ LET k == ExeKey(b[i].read, b[i].f) IN exes' = {e \in exes : e[1] # k} \cup {<<k, b[i].exe>>}
    /\ Set(i, [b[i] EXCEPT !.pc = "move", !.exe = None])

(* the executable leaves the cache, or is run from there; another builder may have taken it *)
Move(i) ==
    /\ b[i].pc = "move" /\ Env /\ UNCHANGED <<cpp, objs>>
    /\ LET k == ExeKey(b[i].read, b[i].f)  es == {e \in exes : e[1] = k} IN
       IF es = {} THEN Set(i, [b[i] EXCEPT !.pc = "cleanup"]) /\ UNCHANGED exes
       ELSE Set(i, [b[i] EXCEPT !.pc = "cleanup", !.exe = (CHOOSE e \in es : TRUE)[2]]) /\ exes' \in {exes, exes \ es}

Cleanup(i) ==
    /\ b[i].pc = "cleanup" /\ Env /\ UNCHANGED <<objs, exes>>
    /\ cpp' = cpp \ b[i].wrote
    /\ Set(i, [b[i] EXCEPT !.pc = IF b[i].exe = None THEN "failed" ELSE "ok", !.tmp = [u \in Units |-> None], !.wrote = {}, !.cur = None, !.done = {}])

Step(i) == First(i) \/ Second(i) \/ ProbeExe(i) \/ Probe(i) \/ Compile(i) \/ Check(i) \/ Put(i) \/ Link(i) \/ PutExe(i) \/ Move(i) \/ Cleanup(i)
Next == \/ \E i \in Builders : Start(i) \/ Step(i) \/ Kill(i)
        \/ \E h \in Hdrs : Edit(h)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
CacheSound ==
    /\ \A o \in objs : o[2] = Contents(o[1].u, [h \in Hdrs |-> IF h \in DOMAIN o[1].h THEN o[1].h[h] ELSE 0], o[1].f)
    /\ \A e \in exes : \A u \in Units : e[2][u] = Contents(u, [h \in Hdrs |-> IF h \in DOMAIN e[1][u].h THEN e[1][u].h[h] ELSE 0], e[1][u].f)

(* what is delivered: the right flags, one version of each header, and one that was current while the builder ran *)
Delivered ==
    \A i \in Builders : b[i].pc = "ok" =>
        \A u \in Units : /\ b[i].exe[u].f = b[i].f
                         /\ \A h \in Incl[u] : /\ b[i].exe[u].h[h] \in b[i].win[h]
                                               /\ \A w \in Units : h \in Incl[w] => b[i].exe[w].h[h] = b[i].exe[u].h[h]

(* a builder fails only when a header changed under it or another builder got in its way *)
Undisturbed(i) == \A h \in Hdrs : b[i].stat[h] = 0 \/ b[i].stat[h] = hdr[h].t
FailsForAReason ==
    Cardinality(Builders) = 1 => \A i \in Builders : b[i].pc = "failed" => \E h \in Hdrs : Cardinality(b[i].win[h]) > 1

(* a builder always has a next step: leftovers of crashes never get it stuck *)
NeverStuck == \A i \in Builders : b[i].pc \notin {"idle", "ok", "failed"} => ENABLED Step(i)

(* objects are found again *)
Link2 == \A i \in Builders : b[i].pc = "link" => \A u \in Units : \E o \in objs : o[1] = Key(u, b[i].read, b[i].f)
=============================================================================
