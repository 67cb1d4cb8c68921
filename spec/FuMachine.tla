----------------------------- MODULE FuMachine ------------------------------
(* An abstract machine for fu programs: what a compiled program must do.       *)
(*                                                                             *)
(* Values are integers, and sequences for arrays, structs and strings; there   *)
(* is no sharing, so copies are independent by construction. A reference is a  *)
(* path: frame, variable, and the indices that lead to the part it names.      *)
(* State: the control c (what is being evaluated, or a value or signal on its  *)
(* way up), the stack K of what remains to be done, the frames fr of the       *)
(* active functions (variables, static link), and the log lg the program has   *)
(* written. One step is one operation of the language.                         *)
(*                                                                             *)
(* Arguments: all by-value operands left to right, then all references.        *)
(* Defers run in reverse, after the value of a return has been computed.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)

VARIABLES p,     \* the program, an index into Progs
          c, K, fr, cur, lg, st
vars == <<p, c, K, fr, cur, lg, st>>

P == Progs[p]
N == Progs[p].n     \* the nodes of its syntax tree: expressions and statements, which refer to each other by number

---------------------------------------------------------------------------
\* arithmetic

Abs(a)     == IF a < 0 THEN -a ELSE a
Sgn(a)     == IF a < 0 THEN -1 ELSE 1
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TMod(a, b) == a - b * TDiv(a, b)
B(x)       == IF x THEN 1 ELSE 0
Limit      == 1000000
Longest    == 2000      \* elements of an array; growing beyond is left out
Wrap(a, n) == a % n                             \* to unsigned
WrapS(a, n) == LET u == a % n IN IF u >= n \div 2 THEN u - n ELSE u

RECURSIVE BitOp(_, _, _, _)
BitOp(o, a, b, n) ==   \* on the n low bits of two's complement numbers
  IF n = 0 THEN 0
  ELSE LET x == a % 2   y == b % 2
           z == CASE o = "&" -> x * y [] o = "|" -> IF x + y > 0 THEN 1 ELSE 0 [] o = "^" -> (x + y) % 2
       IN  z + 2 * BitOp(o, a \div 2, b \div 2, n - 1)
Pow2(n) == 2 ^ n

\* the order of strings (and of all arrays): by length, then by content
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE Lex(a, b)

Digit(d) == 48 + d
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Digit(n)>> ELSE Append(Digits(n \div 10), Digit(n % 10))
Str(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

Bin(o, a, b) ==
  CASE o = "+" -> a + b  [] o = "-" -> a - b [] o = "*" -> a * b
    [] o = "/" -> TDiv(a, b) [] o = "%" -> TMod(a, b)
    [] o = "<" -> B(a < b) [] o = ">" -> B(a > b) [] o = "<=" -> B(a <= b) [] o = ">=" -> B(a >= b)
    [] o = "==" -> B(a = b) [] o = "!=" -> B(a # b)
    [] o = "a<" -> B(Less(a, b)) [] o = "a>" -> B(Less(b, a))
    [] o = "a<=" -> B(~Less(b, a)) [] o = "a>=" -> B(~Less(a, b))
    [] o \in {"&", "|", "^"} -> WrapS(BitOp(o, a, b, 28), Pow2(28))
    [] o = "<<" -> a * Pow2(b) [] o = ">>" -> a \div Pow2(b)
    [] o = "max" -> (IF a > b THEN a ELSE b) [] o = "min" -> (IF a < b THEN a ELSE b)
    [] o = "u8+" -> (a + b) % 256 [] o = "u8-" -> (a - b) % 256 [] o = "u8*" -> ((a % 256) * (b % 256)) % 256
    [] o = "u16+" -> (a + b) % 65536 [] o = "u16-" -> (a - b) % 65536

BadBin(o, a, b) ==
  \/ (o = "*" /\ (Abs(a) > 20000 \/ Abs(b) > 20000))
  \/ (o \in {"/", "%"} /\ b = 0)
  \/ (o \in {"<<", ">>"} /\ (b < 0 \/ b > 12 \/ Abs(a) > 200000))

Un(o, a) ==
  CASE o = "-" -> -a [] o = "!" -> B(a = 0) [] o = "~" -> -a - 1 [] o = "+" -> a
    [] o = "u8" -> Wrap(a, 256) [] o = "i8" -> WrapS(a, 256) [] o = "u16" -> Wrap(a, 65536) [] o = "i16" -> WrapS(a, 65536)
    [] o = "abs" -> Abs(a) [] o = "str" -> Str(a)
    [] o = "len" -> Len(a) [] o = "bool" -> B(a # 0) [] o = "!!arr" -> B(a # <<>>) [] o = "id" -> a

---------------------------------------------------------------------------
\* variables and references

RECURSIVE Find(_, _, _)
Find(f, k, n) == IF n \in DOMAIN f[k].env THEN k ELSE Find(f, f[k].up, n)

\* A step of a path is the position of a field, or 1000 plus that of an array's element.
Step(i) == IF i > 1000 THEN i - 1000 ELSE i
RECURSIVE At(_, _)
At(v, path) == IF path = <<>> THEN v ELSE At(v[Step(path[1])], Tail(path))
RECURSIVE Put(_, _, _)
Put(v, path, x) == IF path = <<>> THEN x ELSE [v EXCEPT ![Step(path[1])] = Put(@, Tail(path), x)]
RECURSIVE Resolves(_, _)
Resolves(v, path) == path = <<>> \/ (Step(path[1]) \in DOMAIN v /\ Resolves(v[Step(path[1])], Tail(path)))

\* Whoever writes an array as a whole may move its elements elsewhere: references to (parts of) them are void.
Inside(q, w) == /\ q.f = w.f /\ q.n = w.n /\ Len(q.p) > Len(w.p)
                /\ \A j \in 1..Len(w.p) : q.p[j] = w.p[j]
                /\ \E j \in Len(w.p)+1..Len(q.p) : q.p[j] > 1000
Nowhere == [f |-> 1000, n |-> "", p |-> <<>>]
Voided(e, w) == e.r /\ Inside(e.ref, w)
Void(f, w) == [k \in DOMAIN f |->
                 IF \E n \in DOMAIN f[k].env : Voided(f[k].env[n], w)
                 THEN [f[k] EXCEPT !.env = [n \in DOMAIN @ |-> IF Voided(@[n], w) THEN [@[n] EXCEPT !.ref = Nowhere] ELSE @[n]]]
                 ELSE f[k]]

\* what a variable stands for: itself, or what its reference names
RefOf(f, k, n) ==
  LET h == Find(f, k, n)   e == f[h].env[n]
  IN  IF e.r THEN e.ref ELSE [f |-> h, n |-> n, p |-> <<>>]
RefOk(f, r)    == r.f <= Len(f) /\ r.n \in DOMAIN f[r.f].env /\ Resolves(f[r.f].env[r.n].v, r.p)
Get(f, r)      == At(f[r.f].env[r.n].v, r.p)
Set(f, r, x)   == Void([f EXCEPT ![r.f].env[r.n].v = Put(@, r.p, x)], r)
Bind(f, k, n, e) == [f EXCEPT ![k].env = (n :> e) @@ @]
Val(v)         == [r |-> FALSE, v |-> v]
RefTo(x)       == [r |-> TRUE, ref |-> x, v |-> 0]

---------------------------------------------------------------------------
\* one-step evaluation of expressions that are flagged pure and total

RECURSIVE Pure(_, _, _)
Pure(f, k, i) ==
  LET e == N[i] IN
  CASE e.k = "int"  -> e.v
    [] e.k = "lit"  -> e.v
    [] e.k = "var"  -> Get(f, RefOf(f, k, e.n))
    [] e.k = "fld"  -> Pure(f, k, e.x[1].e)[e.i]
    [] e.k = "un"   -> Un(e.o, Pure(f, k, e.x[1].e))
    [] e.k = "bin"  -> Bin(e.o, Pure(f, k, e.x[1].e), Pure(f, k, e.x[2].e))
    [] e.k = "arr"  -> [j \in DOMAIN e.x |-> Pure(f, k, e.x[j].e)]
    [] e.k = "cat"  -> Pure(f, k, e.x[1].e) \o Pure(f, k, e.x[2].e)
    [] e.k = "app"  -> Append(Pure(f, k, e.x[1].e), Pure(f, k, e.x[2].e))

\* all variables of a pure expression can be read
RECURSIVE PureOk(_, _, _)
PureOk(f, k, i) ==
  LET e == N[i] IN
  IF e.k = "var" THEN RefOk(f, RefOf(f, k, e.n))
  ELSE IF e.k \in {"int", "lit"} THEN TRUE
  ELSE \A j \in DOMAIN e.x : PureOk(f, k, e.x[j].e)

---------------------------------------------------------------------------
\* operands of a node in evaluation order, as a sequence of positions

OpMode(e, m, j) == IF e.k \in {"fld", "idx"} /\ j = 1 /\ m = "r" THEN "r" ELSE e.x[j].m

Order(e, m) ==
  LET J == 1..Len(e.x)
      sel(md) == SelectSeq([j \in J |-> j], LAMBDA j : (OpMode(e, m, j) = "r") = (md = "r"))
  IN  sel("v") \o sel("r")

\* the results of an operation: new frames, log, and value or reference
Res(f, l, v) == [f |-> f, l |-> l, v |-> v]

\* how a value is written to the log, by type: an integer, an array with its length, the fields of a struct
RECURSIVE Flat(_, _)
RECURSIVE FlatAll(_, _, _)
Flat(v, ty) ==
  CASE ty[1] = "i" -> <<v>>
    [] ty[1] = "a" -> <<Len(v)>> \o FlatAll(v, [j \in DOMAIN v |-> ty[2]], 1)
    [] ty[1] = "s" -> FlatAll(v, ty[2], 1)
FlatAll(v, tys, j) == IF j > Len(v) THEN <<>> ELSE Flat(v[j], tys[j]) \o FlatAll(v, tys, j + 1)

Slice(a, i, j) == SubSeq(a, i + 1, j)
InRange(a, i)  == i >= 0 /\ i < Len(a)

BadOp(e, m, a) ==
  CASE e.k = "idx" -> LET arr == IF m = "r" THEN Get(fr, a[1]) ELSE a[1] IN ~InRange(arr, a[2])
    [] e.k = "slice" -> ~(0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= Len(a[1]))
    [] e.k = "bin" -> BadBin(e.o, a[1], a[2])
    [] e.k = "opasg" -> BadBin(e.o, Get(fr, a[1]), a[2])
    [] e.k = "cat" -> Len(a[1]) + Len(a[2]) > Longest
    [] e.k = "catasg" -> Len(Get(fr, a[1])) + Len(a[2]) > Longest
    [] e.k = "meth" -> LET v == Get(fr, a[1]) IN
         (CASE e.o = "pop" -> v = <<>>
           [] e.o = "shift" -> v = <<>>
           [] e.o = "insert" -> ~(0 <= a[2] /\ a[2] <= Len(v))
           [] e.o = "splice" -> ~(0 <= a[2] /\ 0 <= a[3] /\ a[2] + a[3] <= Len(v)) \/ Len(v) + Len(a[4]) > Longest
           [] e.o = "del" -> ~(0 <= a[2] /\ 0 <= a[3] /\ a[2] + a[3] <= Len(v))
           [] e.o = "resize" -> ~(0 <= a[2] /\ a[2] <= 12)
           [] e.o = "shrink" -> ~(0 <= a[2] /\ a[2] <= Len(v))
           [] OTHER -> FALSE)
    [] OTHER -> FALSE

\* references among the operands that do not name anything (any more)
Dangles(e, m, a) == \E j \in DOMAIN a : OpMode(e, m, j) = "r" /\ ~RefOk(fr, a[j])

Upd(r, x, v) == Res(Set(fr, r, x), lg, v)

Apply(e, m, a) ==
  CASE e.k = "fld"  -> Res(fr, lg, IF m = "r" THEN [a[1] EXCEPT !.p = Append(@, e.i)] ELSE a[1][e.i])
    [] e.k = "idx"  -> Res(fr, lg, IF m = "r" THEN [a[1] EXCEPT !.p = Append(@, 1001 + a[2])] ELSE a[1][a[2] + 1])
    [] e.k = "slice" -> Res(fr, lg, Slice(a[1], a[2], a[3]))
    [] e.k = "get"  -> Res(fr, lg, Get(fr, a[1]))               \* the value of what a function returned a reference to
    [] e.k = "un"   -> Res(fr, lg, Un(e.o, a[1]))
    [] e.k = "bin"  -> Res(fr, lg, Bin(e.o, a[1], a[2]))
    [] e.k \in {"arr", "new"} -> Res(fr, lg, a)
    [] e.k = "cat"  -> Res(fr, lg, a[1] \o a[2])
    [] e.k = "app"  -> Res(fr, lg, Append(a[1], a[2]))
    [] e.k = "pre1" -> Res(fr, lg, <<a[1]>> \o a[2])           \* element ~ array
    [] e.k = "tr"   -> Res(fr, Append(lg, e.id) \o Flat(a[1], e.ty), a[1])
    [] e.k = "asg"  -> Upd(a[1], a[2], a[2])
    [] e.k = "opasg" -> LET x == Bin(e.o, Get(fr, a[1]), a[2]) IN Upd(a[1], x, x)
    [] e.k = "catasg" -> LET x == Get(fr, a[1]) \o a[2] IN Upd(a[1], x, x)
    [] e.k = "appasg" -> LET x == Append(Get(fr, a[1]), a[2]) IN Upd(a[1], x, x)
    [] e.k = "pre"  -> LET x == Get(fr, a[1]) + e.by IN Upd(a[1], x, x)
    [] e.k = "post" -> LET x == Get(fr, a[1]) IN Upd(a[1], x + e.by, x)
    [] e.k = "swap" -> LET x == Get(fr, a[1])  y == Get(fr, a[2]) IN Res(Set(Set(fr, a[1], y), a[2], x), lg, 0)
    [] e.k = "meth" -> LET v == Get(fr, a[1]) IN
         CASE e.o = "push"   -> Upd(a[1], Append(v, a[2]), 0)
           [] e.o = "unshift" -> Upd(a[1], <<a[2]>> \o v, 0)
           [] e.o = "pop"    -> Upd(a[1], SubSeq(v, 1, Len(v) - 1), 0)
           [] e.o = "shift"  -> Upd(a[1], Tail(v), 0)
           [] e.o = "insert" -> Upd(a[1], SubSeq(v, 1, a[2]) \o <<a[3]>> \o SubSeq(v, a[2] + 1, Len(v)), 0)
           [] e.o = "splice" -> Upd(a[1], SubSeq(v, 1, a[2]) \o a[4] \o SubSeq(v, a[2] + a[3] + 1, Len(v)), 0)
           [] e.o = "del"    -> Upd(a[1], SubSeq(v, 1, a[2]) \o SubSeq(v, a[2] + a[3] + 1, Len(v)), 0)
           [] e.o = "clear"  -> Upd(a[1], <<>>, 0)
           [] e.o = "shrink" -> Upd(a[1], SubSeq(v, 1, a[2]), 0)
           [] e.o = "resize" -> Upd(a[1], IF a[2] <= Len(v) THEN SubSeq(v, 1, a[2]) ELSE v \o [j \in 1..(a[2] - Len(v)) |-> 0], 0)
           [] e.o = "steal"  -> Upd(a[1], <<>>, v)

---------------------------------------------------------------------------
\* control

Eval(e, m)  == [t |-> "eval", e |-> e, m |-> m]
Value(v)    == [t |-> "val", v |-> v]
Signal(s)   == [t |-> "sig", s |-> s]
Defers(df, s) == [t |-> "dfr", df |-> df, s |-> s]
Norm(v)     == [t |-> "norm", v |-> v]
Throw(v)    == [t |-> "throw", v |-> v]

Top     == K[Len(K)]
Pop     == SubSeq(K, 1, Len(K) - 1)
Push(f) == Append(K, f)

\* run a list of statements, then optionally an expression for their value
Block(k, ss) == Append(k, [k |-> "seq", ss |-> ss, i |-> 1, df |-> <<>>, x |-> <<>>])

RECURSIVE Up(_, _)
Up(k, d) == IF d = 0 THEN k ELSE Up(fr[k].up, d - 1)

Same == UNCHANGED <<p, fr, cur, lg, st>>
Quit(s) == st' = s /\ UNCHANGED <<p, c, K, fr, cur, lg>>

Zero == [k |-> "int", v |-> 0, p |-> 1]

---- 
\* evaluation of an expression
StepEval ==
  LET e == N[c.e]   m == c.m IN
  IF c.m = "v" /\ e.p = 1
    THEN IF PureOk(fr, cur, c.e) THEN c' = Value(Pure(fr, cur, c.e)) /\ K' = K /\ Same ELSE Quit("dangling")
  ELSE CASE e.k \in {"int", "lit"} -> c' = Value(e.v) /\ K' = K /\ Same
    [] e.k = "var" ->
         LET r == RefOf(fr, cur, e.n) IN
         IF m = "r" THEN c' = Value(r) /\ K' = K /\ Same
         ELSE IF RefOk(fr, r) THEN c' = Value(Get(fr, r)) /\ K' = K /\ Same ELSE Quit("dangling")
    [] e.k \in {"and", "or", "cond"} -> c' = Eval(e.c, "v") /\ K' = Push([k |-> "br", e |-> c.e, m |-> m]) /\ Same
    [] e.k = "blk" -> c' = Value(0) /\ K' = Append(K, [k |-> "seq", ss |-> e.b, i |-> 1, df |-> <<>>, x |-> e.x]) /\ Same
    [] OTHER ->
         IF e.x = <<>> THEN c' = Value(0) /\ K' = Push([k |-> "ops", e |-> c.e, m |-> m, o |-> <<>>, a |-> <<>>]) /\ Same
         ELSE LET o == Order(e, m) IN
              /\ c' = Eval(e.x[o[1]].e, OpMode(e, m, o[1]))
              /\ K' = Push([k |-> "ops", e |-> c.e, m |-> m, o |-> o, a |-> <<>>])
              /\ Same

\* all operands of e are known: args in evaluation order o
Params(fn, a) ==
  LET D == DOMAIN fn.ps IN
  [n \in {fn.ps[j].n : j \in D} |->
     LET j == CHOOSE j \in D : fn.ps[j].n = n IN
     IF fn.ps[j].m = "r" THEN RefTo(a[j]) ELSE Val(a[j])]

Finish(e, m, o, got) ==
  LET a == [j \in 1..Len(e.x) |-> got[CHOOSE k \in 1..Len(o) : o[k] = j]] IN
  IF Dangles(e, m, a) THEN Quit("dangling")
  ELSE IF BadOp(e, m, a) THEN Quit("skip")
  ELSE IF e.k = "call"
    THEN LET \* e.f names a function of the program, or a variable that holds a lambda
             lam == e.f \notin DOMAIN P.fns
             lv  == IF lam THEN Get(fr, RefOf(fr, cur, e.f)) ELSE [f |-> e.f, up |-> IF e.d = 0 THEN 0 ELSE Up(cur, e.d - 1)]
             fn  == P.fns[lv.f]
         IN  /\ Len(fr) < 30
             /\ fr' = Append(fr, [env |-> Params(fn, a), up |-> lv.up])
             /\ cur' = Len(fr) + 1
             /\ K' = Append(Append(Pop, [k |-> "fn", cur |-> cur, me |-> Len(fr) + 1]), [k |-> "seq", ss |-> fn.b, i |-> 1, df |-> <<>>, x |-> <<>>])
             /\ c' = Value(0)
             /\ UNCHANGED <<p, lg, st>>
  ELSE IF e.k = "lam"
    THEN c' = Value([f |-> e.f, up |-> cur]) /\ K' = Pop /\ Same
  ELSE LET r == Apply(e, m, a) IN
       /\ c' = Value(r.v) /\ K' = Pop
       /\ fr' = r.f /\ lg' = r.l /\ UNCHANGED <<p, cur>>
       /\ st' = IF e.k \in {"opasg", "bin", "pre", "post"} /\ (r.v > Limit \/ r.v < -Limit) THEN "skip" ELSE st

\* statements
StepStmt(f) ==
  LET j == f.ss[f.i]
      s == N[j]
      next(k) == Append(Pop, [f EXCEPT !.i = @ + 1, !.df = IF k = <<>> THEN @ ELSE <<k[1]>> \o @])
      KK == next(<<>>)
  IN
  CASE s.k = "expr"  -> c' = Eval(s.e, "v") /\ K' = KK /\ Same
    [] s.k = "let"   -> c' = Eval(s.e, "v") /\ K' = Append(KK, [k |-> "bind", n |-> s.n, m |-> "v"]) /\ Same
    [] s.k = "ref"   -> c' = Eval(s.e, "r") /\ K' = Append(KK, [k |-> "bind", n |-> s.n, m |-> "r"]) /\ Same
    [] s.k = "if"    -> c' = Eval(s.c, "v") /\ K' = Append(KK, [k |-> "if", s |-> j]) /\ Same
    [] s.k = "while" -> c' = Eval(s.c, "v") /\ K' = Append(KK, [k |-> "loop", s |-> j, w |-> "c", f |-> cur]) /\ Same
    [] s.k = "dowhile" -> c' = Value(0) /\ K' = Append(Block(Append(KK, [k |-> "loop", s |-> j, w |-> "b", f |-> cur]), s.b), [k |-> "nop"]) /\ Same
    [] s.k = "for"   -> c' = Eval(s.e, "v")
                        /\ K' = Append(Append(KK, [k |-> "loop", s |-> j, w |-> "i", f |-> cur]), [k |-> "bind", n |-> s.n, m |-> "v"]) /\ Same
    [] s.k = "block" -> c' = Value(0) /\ K' = Append(Block(Append(KK, [k |-> "lab", l |-> s.l, f |-> cur]), s.b), [k |-> "nop"]) /\ Same
    [] s.k = "lcall" -> c' = Eval(s.e, "v") /\ K' = Append(KK, [k |-> "lab", l |-> s.l, f |-> cur]) /\ Same
    [] s.k = "brk"   -> c' = Signal([t |-> "brk", l |-> s.l, f |-> Up(cur, s.d)]) /\ K' = KK /\ Same
    [] s.k = "cont"  -> c' = Signal([t |-> "cont", l |-> s.l, f |-> Up(cur, s.d)]) /\ K' = KK /\ Same
    [] s.k = "ret"   -> c' = Eval(s.e, IF "m" \in DOMAIN s THEN s.m ELSE "v") /\ K' = Append(KK, [k |-> "ret", f |-> Up(cur, s.d)]) /\ Same
    [] s.k = "throw" -> c' = Eval(s.e, "v") /\ K' = Append(KK, [k |-> "thr"]) /\ Same
    [] s.k = "try"   -> c' = Value(0) /\ K' = Append(Block(Append(KK, [k |-> "try", s |-> j, cur |-> cur]), s.b), [k |-> "nop"]) /\ Same
    [] s.k = "defer" -> c' = Value(0) /\ K' = next(<<[w |-> s.w, b |-> s.b]>>) /\ Same

\* a value arrives at the top of the stack
StepVal ==
  LET f == Top  v == c.v IN
  CASE f.k = "nop" -> c' = Value(0) /\ K' = Pop /\ Same
    [] f.k = "ops" ->
         LET got == IF f.o = <<>> THEN <<>> ELSE Append(f.a, v) IN
         IF Len(got) < Len(f.o)
           THEN LET j == f.o[Len(got) + 1] IN
                c' = Eval(N[f.e].x[j].e, OpMode(N[f.e], f.m, j)) /\ K' = Append(Pop, [f EXCEPT !.a = got]) /\ Same
         ELSE Finish(N[f.e], f.m, f.o, got)
    [] f.k = "br" ->
         LET e == N[f.e]  yes == IF e.o = "arr" THEN v # <<>> ELSE v # 0 IN
         (CASE e.k = "and"  -> IF yes THEN c' = Eval(e.b, "v") /\ K' = Pop /\ Same ELSE c' = Value(v) /\ K' = Pop /\ Same
           [] e.k = "or"   -> IF yes THEN c' = Value(v) /\ K' = Pop /\ Same ELSE c' = Eval(e.b, "v") /\ K' = Pop /\ Same
           [] e.k = "cond" -> c' = Eval(IF yes THEN e.a ELSE e.b, f.m) /\ K' = Pop /\ Same)
    [] f.k = "bind" ->
         IF f.m = "r" THEN IF RefOk(fr, v) THEN fr' = Bind(fr, cur, f.n, RefTo(v)) /\ c' = Value(0) /\ K' = Pop /\ UNCHANGED <<p, cur, lg, st>>
                           ELSE Quit("dangling")
         ELSE fr' = Bind(fr, cur, f.n, Val(v)) /\ c' = Value(0) /\ K' = Pop /\ UNCHANGED <<p, cur, lg, st>>
    [] f.k = "if" -> c' = Value(0) /\ K' = Block(Pop, IF v # 0 THEN N[f.s].a ELSE N[f.s].b) /\ Same
    [] f.k = "loop" ->
         LET s == N[f.s] IN
         (CASE f.w = "i" -> c' = Eval(s.c, "v") /\ K' = Append(Pop, [f EXCEPT !.w = "c"]) /\ Same
           [] f.w = "c" -> IF v # 0 THEN c' = Value(0) /\ K' = Block(Append(Pop, [f EXCEPT !.w = "b"]), s.b) /\ Same
                           ELSE c' = Value(0) /\ K' = Pop /\ Same
           [] f.w = "b" -> IF s.k = "for" THEN c' = Eval(s.s, "v") /\ K' = Append(Pop, [f EXCEPT !.w = "i"]) /\ Same
                           ELSE c' = Eval(s.c, "v") /\ K' = Append(Pop, [f EXCEPT !.w = "c"]) /\ Same)
    [] f.k = "lab" -> c' = Value(0) /\ K' = Pop /\ Same
    [] f.k = "ret" -> c' = Signal([t |-> "ret", v |-> v, f |-> f.f]) /\ K' = Pop /\ Same
    [] f.k = "thr" -> c' = Signal(Throw(v)) /\ K' = Pop /\ Same
    [] f.k = "try" -> c' = Value(0) /\ K' = Pop /\ Same
    [] f.k = "rsm" -> c' = Defers(f.df, f.s) /\ K' = Pop /\ Same
    [] f.k = "fn"  -> c' = Value(v) /\ K' = Pop /\ fr' = SubSeq(fr, 1, f.me - 1) /\ cur' = f.cur /\ UNCHANGED <<p, lg, st>>
    [] f.k = "fin" -> c' = Defers(f.df, Norm(v)) /\ K' = Pop /\ Same
    [] f.k = "seq" ->
         IF f.i <= Len(f.ss) THEN StepStmt(f)
         ELSE IF f.x # <<>> THEN c' = Eval(f.x[1].e, "v") /\ K' = Append(Pop, [k |-> "fin", df |-> f.df]) /\ Same
         ELSE c' = Defers(f.df, Norm(0)) /\ K' = Pop /\ Same

\* defers run one after the other, then what was going on goes on
StepDefers ==
  IF c.df = <<>> THEN c' = (IF c.s.t = "norm" THEN Value(c.s.v) ELSE Signal(c.s)) /\ K' = K /\ Same
  ELSE LET d == c.df[1]
           on == (d.w = "all") \/ (d.w = "ok" /\ c.s.t # "throw") \/ (d.w = "err" /\ c.s.t = "throw")
       IN IF on THEN c' = Value(0) /\ K' = Block(Push([k |-> "rsm", df |-> Tail(c.df), s |-> c.s]), d.b) /\ Same
          ELSE c' = Defers(Tail(c.df), c.s) /\ K' = K /\ Same

\* a break, continue, return or exception goes up
StepSig ==
  LET s == c.s  f == Top IN
  IF K = <<>> THEN Quit("uncaught")
  ELSE CASE f.k \in {"seq", "fin"} -> c' = Defers(f.df, s) /\ K' = Pop /\ Same
    [] f.k = "try" /\ s.t = "throw" ->
         /\ fr' = Bind(fr, cur, N[f.s].n, Val(s.v)) /\ c' = Value(0) /\ K' = Block(Pop, N[f.s].h) /\ UNCHANGED <<p, cur, lg, st>>
    [] f.k = "fn" ->
         /\ fr' = SubSeq(fr, 1, f.me - 1) /\ cur' = f.cur /\ K' = Pop
         /\ c' = (IF s.t = "ret" /\ s.f = f.me THEN Value(s.v) ELSE c)
         /\ UNCHANGED <<p, lg, st>>
    [] f.k = "loop" /\ s.t = "brk" /\ s.l = N[f.s].l /\ s.f = f.f -> c' = Value(0) /\ K' = Pop /\ Same
    [] f.k = "lab" /\ s.t \in {"brk", "cont"} /\ s.l = f.l /\ s.f = f.f -> c' = Value(0) /\ K' = Pop /\ Same
    [] f.k = "loop" /\ s.t = "cont" /\ s.l = N[f.s].l /\ s.f = f.f -> c' = Value(0) /\ K' = Append(Pop, [f EXCEPT !.w = "b"]) /\ Same
    [] OTHER -> c' = c /\ K' = Pop /\ Same

Init == /\ p \in 1..Len(Progs)
        /\ c = Value(0)
        /\ fr = <<[env |-> <<>>, up |-> 0]>> /\ cur = 1
        /\ K = Block(<<>>, Progs[p].main)
        /\ lg = <<>> /\ st = "run"

Running == st = "run" /\ ~(c.t = "val" /\ K = <<>>) /\ TLCGet("level") < 6000
Next == /\ Running
        /\ CASE c.t = "eval" -> StepEval
             [] c.t = "val"  -> StepVal
             [] c.t = "dfr"  -> StepDefers
             [] c.t = "sig"  -> StepSig

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* what the machine itself has to satisfy in every state
FrameOk  == cur \in 1..Len(fr) /\ \A k \in 1..Len(fr) : fr[k].up < k
LogKept  == [][Len(lg) <= Len(lg') /\ SubSeq(lg', 1, Len(lg)) = lg]_vars

\* the outcome of a finished program against what the compiled program wrote
Agrees(l, end) == l = P.log /\ end = P.end
Verdict ==
  IF st = "run" /\ c.t = "val" /\ K = <<>> THEN (IF Agrees(lg, "END") THEN "ok" ELSE "bad")
  ELSE IF st = "uncaught" /\ c.s.t = "throw" THEN (IF Agrees(lg \o <<Len(c.s.v)>> \o c.s.v, "THROW") THEN "ok" ELSE "bad")
  ELSE IF st = "run" THEN "running" ELSE st
Report == Running \/ PrintT("V " \o ToString(p) \o " " \o Verdict \o " " \o ToJson(lg))
=============================================================================
