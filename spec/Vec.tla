-------------------------------- MODULE Vec --------------------------------
(* What a fu array is to its user: a value. The state is one independent      *)
(* sequence per variable, an operation changes the variables it names and     *)
(* nothing else, whatever the arrays' storage (inline, owned, shared) is.     *)
(* An operation is a record; d and s are the variables, [a, b) is a window of *)
(* the first one (or of the second for reads), i/del/n/v the other arguments. *)
EXTENDS Naturals, Sequences

Cut(s, a, b)            == SubSeq(s, a + 1, b)
Replace(s, a, del, new) == Cut(s, 0, a) \o new \o Cut(s, a + del, Len(s))
Zeros(n)                == [k \in 1..n |-> 0]
Resized(s, n)           == IF n <= Len(s) THEN Cut(s, 0, n) ELSE s \o Zeros(n - Len(s))

One(x)    == <<x>>

\* operations that only change the variable d: the new value of d
Whole(o, D, S) ==
  CASE o.op = "drop"         -> <<>>
    [] o.op = "clear"        -> <<>>
    [] o.op = "copy"         -> S
    [] o.op = "push"         -> D \o One(o.v)
    [] o.op = "selfpush"     -> D \o One(S[o.i + 1])
    [] o.op = "unshift"      -> One(o.v) \o D
    [] o.op = "insert"       -> Replace(D, o.i, 0, One(o.v))
    [] o.op = "set"          -> [D EXCEPT ![o.i + 1] = o.v]
    [] o.op = "setall"       -> [k \in 1..Len(D) |-> o.v + k - 1]
    [] o.op = "swapelem"     -> [D EXCEPT ![o.a + 1] = D[o.b + 1], ![o.b + 1] = D[o.a + 1]]
    [] o.op = "pop"          -> Cut(D, 0, Len(D) - 1)
    [] o.op = "shift1"       -> Cut(D, 1, Len(D))
    [] o.op = "shift"        -> Cut(D, o.n, Len(D))
    [] o.op = "shift_pop"    -> Cut(D, o.a, Len(D) - o.b)
    [] o.op = "splice"       -> Replace(D, o.i, o.del, <<>>)
    [] o.op = "splice_empty" -> Replace(D, o.i, o.del, Zeros(o.n))
    [] o.op = "resize"       -> Resized(D, o.n)
    [] o.op = "grow"         -> Resized(D, o.n)
    [] o.op = "shrink"       -> Resized(D, o.n)
    [] o.op = "reserve"      -> D
    [] o.op = "unique"       -> D
    [] o.op = "slice_mv"     -> Cut(D, o.a, o.b)
    [] o.op = "slice_cp"     -> Cut(S, o.a, o.b)
    [] o.op = "append"       -> Cut(D, 0, Len(D) - o.del) \o S
    [] o.op = "appendsub"    -> Cut(D, 0, Len(D) - o.del) \o Cut(S, o.a, o.b)
    [] o.op = "appendrng"    -> Cut(D, 0, Len(D) - o.del) \o Cut(S, o.a, o.b)
    [] o.op = "splicecopy"   -> Replace(D, o.i, o.del, S)
    [] o.op = "splicesub"    -> Replace(D, o.i, o.del, Cut(S, o.a, o.b))
    [] o.op = "cat"          -> D \o S
    [] o.op = "catview"      -> Cut(D, o.a, o.b) \o S
    [] o.op = "prepend"      -> S \o D
    [] o.op = "catone"       -> S \o One(o.v)
    [] o.op = "onecat"       -> One(o.v) \o S
    [] o.op = "nilread"      -> <<>>
    [] o.op = "literal"      -> [k \in 1..o.n |-> o.v + k - 1]
    [] o.op = "catv"         -> D \o Cut(S, o.a, o.b)
    [] o.op = "catmv"        -> D \o Cut(S, o.a, o.b)
    [] o.op = "addv"         -> D \o Cut(S, o.a, o.b)
    [] o.op = "catvm"        -> Cut(S, o.a, o.b) \o D
    [] o.op = "catvv"        -> Cut(D, o.a, o.b) \o Cut(S, o.i, o.n)
    [] o.op = "catvone"      -> Cut(S, o.a, o.b) \o One(o.v)
    [] o.op = "onecatv"      -> One(o.v) \o Cut(S, o.a, o.b)
    [] o.op = "addto"        -> D \o S
    [] o.op = "addone"       -> D \o One(o.v)
    [] o.op = "vread"        -> Cut(S, o.a, o.b)
    [] o.op = "vmread"       -> Cut(S, o.a, o.b)
    [] o.op = "wassign"      -> Cut(S, o.a, o.b)
    [] o.op = "bytes"        -> Cut(S, o.a, o.b)

\* operations through a window [a, b) of d: the new value of the window
Window(o, W, S) ==
  CASE o.op = "viewset"      -> [W EXCEPT ![o.i + 1] = o.v]
    [] o.op = "viewassign"   -> Cut(S, o.i, o.i + Len(W))
    [] o.op = "rset"         -> [W EXCEPT ![o.i + 1] = o.v]
    [] o.op = "rpush"        -> W \o One(o.v)
    [] o.op = "rpush2"       -> W \o One(o.v)
    [] o.op = "runshift"     -> One(o.v) \o W
    [] o.op = "rinsert"      -> Replace(W, o.i, 0, One(o.v))
    [] o.op = "rresize"      -> Resized(W, o.n)
    [] o.op = "rgrow"        -> Resized(W, o.n)
    [] o.op = "rshrink"      -> Resized(W, o.n)
    [] o.op = "rclear"       -> <<>>
    [] o.op = "rpop"         -> Cut(W, 0, Len(W) - 1)
    [] o.op = "rsplice"      -> Replace(W, o.i, o.del, <<>>)
    [] o.op = "rsplicecopy"  -> Replace(W, o.i, o.del, S)
    [] o.op = "rappend"      -> W \o S
    [] o.op = "raddto"       -> W \o S
    [] o.op = "raddone"      -> W \o <<o.v, o.v + 1>>
    [] o.op = "rassign"      -> S
    [] o.op = "rassignrng"   -> Cut(S, o.i, o.n)

WindowOps == {"viewset", "viewassign", "rset", "rpush", "rpush2", "runshift", "rinsert", "rresize", "rgrow",
              "rshrink", "rclear", "rpop", "rsplice", "rsplicecopy", "rappend", "raddto", "raddone", "rassign", "rassignrng"}

\* the new values of <<d, s>> for operations that take the value out of s
Pair(o, D, S) ==
  CASE o.op = "move"         -> <<S, <<>>>>
    [] o.op = "moddef"       -> <<S, <<>>>>
    [] o.op = "swap"         -> <<S, D>>
    [] o.op = "swapthrough"  -> <<S, D>>
    [] o.op = "appendmove"   -> <<Cut(D, 0, Len(D) - o.del) \o S, <<>>>>
    [] o.op = "catmove"      -> <<D \o S, <<>>>>
    [] o.op = "splicemove"   -> <<Replace(D, o.i, o.del, S), <<>>>>
    [] o.op = "rsplicemove"  -> <<Replace(D, o.a + o.i, o.del, S), <<>>>>
    [] o.op = "rappendmove"  -> <<Replace(D, o.b, 0, S), <<>>>>
    [] o.op = "rassignmove"  -> <<Replace(D, o.a, o.b - o.a, S), <<>>>>
    [] o.op = "rswap"        -> <<Replace(D, o.a, o.b - o.a, S), Cut(D, o.a, o.b)>>
    [] o.op = "rrswap"       -> <<Replace(D, o.a, o.b - o.a, Cut(S, o.i, o.n)), Replace(S, o.i, o.n - o.i, Cut(D, o.a, o.b))>>

PairOps == {"move", "moddef", "swap", "swapthrough", "appendmove", "catmove", "splicemove", "rsplicemove",
            "rappendmove", "rassignmove", "rswap", "rrswap"}

\* The effect of o on all variables: v is a function from variables to sequences.
Effect(v, o) ==
  LET D == v[o.d]
      S == v[o.s]
  IN  IF o.op \in PairOps
        THEN LET p == Pair(o, D, S) IN IF o.d = o.s THEN v ELSE [v EXCEPT ![o.d] = p[1], ![o.s] = p[2]]
      ELSE IF o.op \in WindowOps
        THEN [v EXCEPT ![o.d] = Replace(D, o.a, o.b - o.a, Window(o, Cut(D, o.a, o.b), S))]
      ELSE IF o.op = "rmove" THEN [v EXCEPT ![o.d] = Cut(D, o.a, o.b)]
      ELSE IF o.op = "rread" THEN [v EXCEPT ![o.d] = Cut(S, o.a, o.b)]
      ELSE [v EXCEPT ![o.d] = Whole(o, D, S)]
=============================================================================
