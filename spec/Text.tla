-------------------------------- MODULE Text --------------------------------
(* What the functions of the prelude on arrays and texts denote, and those of *)
(* lib/ascii.fu, lib/unicode.fu and the decimals. Positions count from 0.     *)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Part(a, i, j) == SubSeq(a, i + 1, j)            \* a[i .. j]
Rev(a) == [j \in 1..Len(a) |-> a[Len(a) + 1 - j]]
Elems(a) == {a[j] : j \in DOMAIN a}
Count(a, x) == Cardinality({j \in DOMAIN a : a[j] = x})

\* --- searching ---
At(a, n, i) == i + Len(n) <= Len(a) /\ Part(a, i, i + Len(n)) = n
Starts(a, n) == At(a, n, 0)
Ends(a, n) == Len(n) <= Len(a) /\ At(a, n, Len(a) - Len(n))
Find(a, n, s, e) ==                             \* the first place in a[s .. e], or -1
  LET P == {i \in s..e : i + Len(n) <= e /\ At(a, n, i)} IN IF P = {} THEN -1 ELSE Min(P)

\* --- cutting and joining ---
RECURSIVE Split(_, _)
Split(a, sep) ==
  LET i == IF sep = <<>> THEN -1 ELSE Find(a, sep, 0, Len(a)) IN
  IF i < 0 THEN <<a>> ELSE <<Part(a, 0, i)>> \o Split(Part(a, i + Len(sep), Len(a)), sep)
RECURSIVE Join(_, _)
Join(ps, sep) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o sep \o Join(Tail(ps), sep)
Replace(a, all, with) == Join(Split(a, all), with)

\* --- the order: shorter first, then by the first difference; bytes are signed ---
Ord(t, x) == IF t = "b" /\ x > 127 THEN x - 256 ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cmp(t, a, b) ==
  IF Len(a) # Len(b) THEN Sgn(Len(a) - Len(b))
  ELSE LET D == {j \in DOMAIN a : a[j] # b[j]} IN
       IF D = {} THEN 0 ELSE Sgn(Ord(t, a[Min(D)]) - Ord(t, b[Min(D)]))

Permuted(a, b) == Len(a) = Len(b) /\ \A x \in Elems(a) \cup Elems(b) : Count(a, x) = Count(b, x)
Sorted(a, key(_)) == \A j \in 1..(Len(a) - 1) : key(a[j]) <= key(a[j + 1])

\* --- letters ---
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Blank(c) == c <= 32
Trim(a) ==
  LET S == {j \in DOMAIN a : ~Blank(a[j])} IN
  IF S = {} THEN <<>> ELSE SubSeq(a, Min(S), CHOOSE j \in S : \A k \in S : k <= j)

\* --- UTF-8 ---
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] c < 1114112 -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<>>
Extra(b) == IF b < 128 THEN 0 ELSE IF b \in 192..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..247 THEN 3 ELSE -1
Head8(b) == CASE b < 128 -> b [] b \in 192..223 -> b - 192 [] b \in 224..239 -> b - 224 [] OTHER -> b - 240
Goes(b) == b \in 128..191
\* the events of a text from position i on: <<1, codepoint, its last position>> and <<0, 0, position of what is malformed>>;
\* a sequence that breaks off takes the byte that breaks it along
RECURSIVE Points(_, _)
RECURSIVE Value(_, _, _)
Value(a, i, n) == IF n = 0 THEN Head8(a[i + 1]) ELSE Value(a, i, n - 1) * 64 + (a[i + n + 1] - 128)
Points(a, i) ==
  IF i >= Len(a) THEN <<>>
  ELSE LET n == Extra(a[i + 1]) IN
       IF n < 0 \/ i + n >= Len(a) THEN <<<<0, 0, i>>>> \o Points(a, i + 1)
       ELSE LET B == {j \in 1..n : ~Goes(a[i + j + 1])} IN
            IF B = {} THEN <<<<1, Value(a, i, n), i + n>>>> \o Points(a, i + n + 1)
            ELSE <<<<0, 0, i>>>> \o Points(a, i + Min(B) + 1)

\* --- decimals: numbers as four limbs of 16 bits, the lowest first ---
Base == 65536
RECURSIVE Carry(_, _)                           \* limbs * 10 + d, modulo 2^64
Carry(ls, d) == IF ls = <<>> THEN <<>> ELSE LET x == ls[1] * 10 + d IN <<x % Base>> \o Carry(Tail(ls), x \div Base)
RECURSIVE Horner(_, _)
Horner(ds, acc) == IF ds = <<>> THEN acc ELSE Horner(Tail(ds), Carry(acc, ds[1] - 48))
Zeros == <<0, 0, 0, 0>>
RECURSIVE NegL(_, _)
NegL(ls, c) == IF ls = <<>> THEN <<>> ELSE LET x == (Base - 1 - ls[1]) + c IN <<x % Base>> \o NegL(Tail(ls), x \div Base)
Digits(s) == s # <<>> /\ Len(s) <= 20 /\ (\A j \in DOMAIN s : s[j] \in 48..57) /\ (Len(s) > 1 => s[1] # 48)
\* s is how the number is written; neg: it is negative
Decimal(s, ls, neg) ==
  IF neg THEN Len(s) > 1 /\ s[1] = 45 /\ Digits(Tail(s)) /\ Horner(Tail(s), Zeros) = NegL(ls, 1)
  ELSE Digits(s) /\ Horner(s, Zeros) = ls

\* the same for numbers of any size, as many limbs as they need; fractions have six digits
Pad(ls, n) == ls \o [j \in 1..(n - Len(ls)) |-> 0]
RECURSIVE Times(_, _, _)
Times(ls, k, c) == IF ls = <<>> THEN <<>> ELSE LET x == ls[1] * k + c IN <<x % Base>> \o Times(Tail(ls), k, x \div Base)
RECURSIVE Twice(_, _)
Twice(ls, n) == IF n = 0 THEN ls ELSE Twice(Times(ls, IF n >= 10 THEN 1024 ELSE 2, 0), IF n >= 10 THEN n - 10 ELSE n - 1)
\* s is how m * 2^(x - 6) is written: the number a million times as big is m * 15625 * 2^x
Fraction(s, m, x, neg) ==
  LET t == IF neg THEN Tail(s) ELSE s
      k == Len(t) - 6
      n == 6 + x \div 16 IN
  /\ (neg => s # <<>> /\ s[1] = 45)
  /\ k >= 2 /\ t[k] = 46
  /\ \A j \in DOMAIN t : j # k => t[j] \in 48..57
  /\ (k > 2 => t[1] # 48)
  /\ Horner(SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t)), Pad(<<>>, n)) = Twice(Times(Pad(m, n), 15625, 0), x)
=============================================================================
