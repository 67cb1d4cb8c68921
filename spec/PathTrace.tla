------------------------------ MODULE PathTrace -----------------------------
(* What a path denotes: whether it starts at the root, how far it goes up,    *)
(* and the names from there. The functions of lib/path.fu are recorded: o     *)
(* which, a and b the paths, r the result.                                    *)
EXTENDS Text, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
Slash == <<47>>
Up1 == <<46, 46>>
Parts(p) == Split(p, Slash)
Abs(p) == Starts(p, Slash)
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Walk(_, _, _)
Walk(ps, abs, at) ==
  IF ps = <<>> THEN at
  ELSE Walk(Tail(ps), abs,
            CASE ps[1] \in {<<>>, <<46>>} -> at
              [] ps[1] = Up1 -> IF at # <<>> /\ at[Len(at)] # Up1 THEN Front(at) ELSE IF abs THEN at ELSE Append(at, Up1)
              [] OTHER -> Append(at, ps[1]))
Place(p) == <<Abs(p), Walk(Parts(p), Abs(p), <<>>)>>
\* in the shortest words: nothing empty but at the ends, nothing that goes down and up again
Short(p) == LET ps == Parts(p)  n == Len(ps) IN
  /\ \A j \in 1..n : ps[j] # <<46>> /\ (ps[j] = <<>> => (j = 1 /\ (n = 1 \/ Abs(p))) \/ j = n)
  /\ \A j \in 1..n : ps[j] = Up1 => ~Abs(p) /\ \A k \in 1..j : ps[k] = Up1
Slashes(p) == {j \in DOMAIN p : p[j] = 47}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Dir(p) == IF Slashes(p) = {} THEN <<>> ELSE SubSeq(p, 1, Max(Slashes(p)))
File(p) == IF Slashes(p) = {} THEN p ELSE SubSeq(p, Max(Slashes(p)) + 1, Len(p))
\* the directory of a directory is the one it is in
Parent(p) == IF p = <<>> THEN <<>> ELSE Dir(Front(p))
Dots(p) == {j \in DOMAIN p : p[j] = 46 /\ \A k \in Slashes(p) : k < j}
Ext(p) == IF Dots(p) = {} THEN <<>> ELSE SubSeq(p, Max(Dots(p)), Len(p))
Joined(a, b) == IF Abs(b) \/ a = <<>> THEN b ELSE a \o Slash \o b
Right(e) ==
  CASE e.o = "ext"       -> e.r = Ext(e.a)
    [] e.o = "noext"     -> e.r \o Ext(e.a) = e.a
    [] e.o = "dirname"   -> e.r = Parent(e.a)
    [] e.o = "filename"  -> e.r = File(e.a)
    [] e.o = "normalize" -> Place(e.r) = Place(e.a) /\ Short(e.r)
    [] e.o = "join"      -> Place(e.r) = Place(Joined(e.a, e.b)) /\ Short(e.r)
    [] e.o = "relative"  -> ~Abs(e.r) /\ Place(Joined(Dir(e.a), e.r)) = Place(e.b)

Some == UNION {[1..n -> {46, 47, 97}] : n \in 0..5}
ASSUME \A p \in Some : Dir(p) \o File(p) = p /\ Place(Joined(Dir(p), File(p))) = Place(p)

VARIABLES h, l, st
vars == <<h, l, st>>
Init == h \in 1..Len(T) /\ l = 1 /\ st = "run"
More == st = "run" /\ l <= Len(T[h].ops)
Next == /\ More
        /\ IF Right(T[h].ops[l]) THEN l' = l + 1 /\ UNCHANGED <<h, st>> ELSE st' = "bad" /\ UNCHANGED <<h, l>>
Spec == Init /\ [][Next]_vars
Report == More \/ PrintT("V " \o ToString(h) \o " " \o st \o " " \o ToString(l))
=============================================================================
