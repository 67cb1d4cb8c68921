------------------------------ MODULE VecCases ------------------------------
(* Every transition of Vec.tla from two arrays of the given lengths, with its  *)
(* specified outcome, for the replay into the real arrays. TLC writes them to  *)
(* IOEnv.CASES. The arrays' elements are all different.                        *)
EXTENDS Vec, TLC, Json, IOUtils, FiniteSets, SequencesExt

CONSTANTS Lens,      \* lengths of the first array
          SLens      \* lengths of the second

Pos(n) == IF n <= 4 THEN 0..n ELSE {0, 1, n \div 2, n - 1, n}
Win(n) == {p \in Pos(n) \X Pos(n) : p[1] <= p[2]}            \* windows [a, b)
Cutp(n) == {p \in Pos(n) \X (Pos(n) \cup Pos(n \div 2)) : p[1] + p[2] <= n}  \* (i, del)
New    == {0, 1, 2, 5}

Op(n)          == [op |-> n, d |-> 0, s |-> 1, i |-> 0, del |-> 0, n |-> 0, a |-> 0, b |-> 0, v |-> 40]
At(o, i)       == [o EXCEPT !.i = i]
Del(o, p)      == [o EXCEPT !.i = p[1], !.del = p[2]]
In(o, w)       == [o EXCEPT !.a = w[1], !.b = w[2]]
N(o, n)        == [o EXCEPT !.n = n]
Self(o)        == [o EXCEPT !.s = 0]

\* all operations on arrays of lengths ld and ls
Ops(ld, ls) ==
  LET PD == Pos(ld)  PS == Pos(ls)  below == {k \in PD : k < ld}
      lens(w) == w[2] - w[1]
  IN
     {Op(n) : n \in {"move", "moddef", "swap", "swapthrough", "drop", "clear", "copy", "push", "unshift", "setall", "unique",
                     "catmove", "cat", "prepend", "catone", "onecat", "addto", "addone", "nilread"}}
  \cup (IF ld > 0 THEN {Op("pop"), Op("shift1")} ELSE {})
  \cup {Self(Op(n)) : n \in {"cat", "catone", "onecat", "swap", "addto"}}
  \cup {N(Op("literal"), n) : n \in {1, 2, 5}}
  \cup {In(Op(n), w) : w \in Win(ls), n \in {"catv", "catmv", "catvm", "addv", "catvone", "onecatv", "vread", "vmread", "wassign", "bytes"}}
  \cup {Self(In(Op(n), w)) : w \in Win(ld), n \in {"catv", "addv", "catvone", "onecatv", "vread", "bytes"}}
  \cup {[In(Op("catvv"), w) EXCEPT !.i = x[1], !.n = x[2]] : w \in Win(ld), x \in Win(ls)}
  \cup {At(Op("insert"), i) : i \in PD}
  \cup {At(Op("set"), i) : i \in below}
  \cup {In(Op("swapelem"), w) : w \in below \X below}
  \cup {At(Op("selfpush"), i) : i \in {k \in PS : k < ls}}
  \cup {At(Self(Op("selfpush")), i) : i \in below}
  \cup {N(Op("shift"), n) : n \in PD}
  \cup {In(Op("shift_pop"), p) : p \in Cutp(ld)}
  \cup {Del(Op("splice"), p) : p \in Cutp(ld)}
  \cup {N(Del(Op("splice_empty"), p), n) : p \in Cutp(ld), n \in New}
  \cup {Del(Op(n), p) : p \in Cutp(ld), n \in {"splicecopy", "splicemove"}}
  \cup {Self(Del(Op("splicecopy"), p)) : p \in Cutp(ld)}
  \cup {In(Del(Op("splicesub"), p), w) : p \in Cutp(ld), w \in Win(ls)}
  \cup {Self(In(Del(Op("splicesub"), p), w)) : p \in Cutp(ld), w \in Win(ld)}
  \cup {N(Op(n), k) : k \in PD \cup {ld + 1, ld + 7}, n \in {"resize", "reserve"}}
  \cup {N(Op("grow"), ld + k) : k \in New}
  \cup {N(Op("shrink"), k) : k \in PD}
  \cup {In(Op("slice_mv"), w) : w \in Win(ld)}
  \cup {In(Op("slice_cp"), w) : w \in Win(ls)}
  \cup {Self(In(Op("slice_cp"), w)) : w \in Win(ld)}
  \cup {In(Op("catview"), w) : w \in Win(ld)}
  \cup {[Op(n) EXCEPT !.del = k] : k \in PD, n \in {"append", "appendmove"}}
  \cup {[Self(Op("append")) EXCEPT !.del = k] : k \in PD}
  \cup {[In(Op(n), w) EXCEPT !.del = k] : k \in PD, w \in Win(ls), n \in {"appendsub", "appendrng"}}
  \cup {Self([In(Op("appendsub"), w) EXCEPT !.del = k]) : k \in PD, w \in Win(ld)}
  \cup {In(Op("rread"), w) : w \in Win(ls)}
  \* windows of the first array
  \cup {In(Op(n), w) : w \in Win(ld), n \in {"rpush", "rpush2", "runshift", "rclear", "rmove", "rappend", "raddto", "raddone", "rappendmove", "rassign",
                                             "rassignmove", "rswap"}}
  \cup {In(Op("rpop"), w) : w \in {x \in Win(ld) : lens(x) > 0}}
  \cup UNION {{At(In(Op(n), w), i) : i \in 0..(lens(w) - 1), n \in {"rset", "viewset"}} : w \in Win(ld)}
  \cup UNION {{At(In(Op("rinsert"), w), i) : i \in Pos(lens(w))} : w \in Win(ld)}
  \cup UNION {{N(In(Op("rresize"), w), n) : n \in Pos(lens(w)) \cup {lens(w) + 1, lens(w) + 5}} : w \in Win(ld)}
  \cup UNION {{N(In(Op("rgrow"), w), lens(w) + n) : n \in New} : w \in Win(ld)}
  \cup UNION {{N(In(Op("rshrink"), w), n) : n \in Pos(lens(w))} : w \in Win(ld)}
  \cup UNION {{Del(In(Op(n), w), p) : p \in {x \in Cutp(lens(w)) : x[1] < lens(w)}, n \in {"rsplice", "rsplicecopy", "rsplicemove"}} : w \in Win(ld)}
  \cup UNION {{[In(Op(n), w) EXCEPT !.i = x[1], !.n = x[2]] : x \in Win(ls), n \in {"rrswap", "rassignrng"}} : w \in Win(ld)}
  \cup UNION {{At(In(Op("viewassign"), w), i) : i \in {k \in PS : k + lens(w) <= ls}} : w \in Win(ld)}

Fresh(base, n) == [k \in 1..n |-> base + k]

Case(ld, ls, o) ==
  LET v0 == (0 :> Fresh(0, ld)) @@ (1 :> Fresh(50, ls))
      v1 == Effect(v0, o)
  IN  <<o.op, o.d, o.s, o.i, o.del, o.n, o.a, o.b, o.v, v0[0], v0[1], v1[0], v1[1]>>

Cases == UNION {{Case(ld, ls, o) : o \in Ops(ld, ls)} : ld \in Lens, ls \in SLens}

ASSUME LET C == SetToSeq(Cases) IN
       /\ ndJsonSerialize(IOEnv.CASES, C)
       /\ PrintT(<<"CASES", Len(C)>>)

VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
