------------------------------- MODULE VecRep -------------------------------
(* The design behind Vec.tla: arrays are short values held in place, or        *)
(* windows of reference-counted blocks that are shared until somebody writes.  *)
(* Checked: every variable shows its own value (val, the sequences of Vec.tla) *)
(* whatever happens to the others, counts are exact, a block is released when  *)
(* and only when nobody refers to it, and only sole owners write.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Vars, Blocks, MaxLen, Small, Values

VARIABLES rep,    \* variable -> representation
          mem,    \* block -> [live, rc, data]
          val     \* variable -> the value it is supposed to have (ghost)
vars == <<rep, mem, val>>

Free    == [live |-> FALSE, rc |-> 0, data |-> <<>>]
Local(s) == [k |-> "local", b |-> 0, off |-> 0, len |-> 0, data |-> s]
Ref(b, off, len) == [k |-> "ref", b |-> b, off |-> off, len |-> len, data |-> <<>>]

Show(m, r) == IF r.k = "local" THEN r.data ELSE SubSeq(m[r.b].data, r.off + 1, r.off + r.len)

Init == /\ rep = [v \in Vars |-> Local(<<>>)]
        /\ mem = [b \in Blocks |-> Free]
        /\ val = [v \in Vars |-> <<>>]

\* letting go of a representation
Released(m, r) ==
  IF r.k = "local" THEN m
  ELSE IF m[r.b].rc = 1 THEN [m EXCEPT ![r.b] = Free] ELSE [m EXCEPT ![r.b].rc = @ - 1]

FreeBlock(m) == CHOOSE b \in Blocks : ~m[b].live
HasFree(m)   == \E b \in Blocks : ~m[b].live

\* v gets the contents s: in place when short, in its own block otherwise
Store(v, s, m0) ==
  IF Len(s) <= Small
    THEN rep' = [rep EXCEPT ![v] = Local(s)] /\ mem' = m0
    ELSE LET b == FreeBlock(m0) IN
         /\ HasFree(m0)
         /\ rep' = [rep EXCEPT ![v] = Ref(b, 0, Len(s))]
         /\ mem' = [m0 EXCEPT ![b] = [live |-> TRUE, rc |-> 1, data |-> s]]

Sole(r) == r.k = "ref" /\ mem[r.b].rc = 1

\* writing new contents to v: in place only by a sole owner
Write(v, s) ==
  LET r == rep[v] IN
  IF Sole(r) /\ Len(s) > Small
    THEN /\ mem' = [mem EXCEPT ![r.b].data = s]
         /\ rep' = [rep EXCEPT ![v] = Ref(r.b, 0, Len(s))]
    ELSE LET m0 == Released(mem, r) IN
         \/ Store(v, s, m0)
         \* the old block may only be reused when this was its last reference
         \/ ~HasFree(m0) /\ Len(s) > Small /\ UNCHANGED <<rep, mem>>

SetTo(v, s) == val' = IF rep' = rep /\ mem' = mem /\ Show(mem, rep[v]) # s THEN val ELSE [val EXCEPT ![v] = s]

Copy(d, s) ==
  /\ d # s
  /\ LET m0 == Released(mem, rep[d])
         r  == rep[s]
     IN  IF r.k = "local" THEN mem' = m0 /\ rep' = [rep EXCEPT ![d] = r]
         ELSE /\ mem' = (IF rep[d].k = "ref" /\ rep[d].b = r.b THEN mem ELSE [m0 EXCEPT ![r.b].rc = @ + 1])
              /\ rep' = [rep EXCEPT ![d] = r]
  /\ val' = [val EXCEPT ![d] = val[s]]

Move(d, s) ==
  /\ d # s
  /\ mem' = Released(mem, rep[d])
  /\ rep' = [rep EXCEPT ![d] = rep[s], ![s] = Local(<<>>)]
  /\ val' = [val EXCEPT ![d] = val[s], ![s] = <<>>]

Swap(d, s) == /\ d # s /\ mem' = mem
              /\ rep' = [rep EXCEPT ![d] = rep[s], ![s] = rep[d]]
              /\ val' = [val EXCEPT ![d] = val[s], ![s] = val[d]]

Edit(v) ==
  LET x == Show(mem, rep[v]) IN
  \E s \in  {Append(x, e) : e \in IF Len(x) < MaxLen THEN Values ELSE {}}
      \cup {[x EXCEPT ![k] = e] : k \in DOMAIN x, e \in Values} :
    Write(v, s) /\ SetTo(v, s)

\* dropping elements at the ends only narrows the window, even a shared one
Narrow(v) ==
  \E a, b \in 0..MaxLen :
    LET r == rep[v] IN
    /\ a + b <= Len(val[v]) /\ a + b > 0
    /\ LET s == SubSeq(val[v], a + 1, Len(val[v]) - b) IN
       /\ IF r.k = "local" THEN rep' = [rep EXCEPT ![v] = Local(s)] /\ mem' = mem
          ELSE IF s = <<>> THEN rep' = [rep EXCEPT ![v] = Local(<<>>)] /\ mem' = Released(mem, r)
          ELSE rep' = [rep EXCEPT ![v] = Ref(r.b, r.off + a, Len(s))] /\ mem' = mem
       /\ val' = [val EXCEPT ![v] = s]

Drop(v) == /\ mem' = Released(mem, rep[v])
           /\ rep' = [rep EXCEPT ![v] = Local(<<>>)]
           /\ val' = [val EXCEPT ![v] = <<>>]

Next == \/ \E v \in Vars : Edit(v) \/ Narrow(v) \/ Drop(v)
        \/ \E d, s \in Vars : Copy(d, s) \/ Move(d, s) \/ Swap(d, s)

Spec == Init /\ [][Next]_vars

\* --- what is checked ---
Refs(b)   == {v \in Vars : rep[v].k = "ref" /\ rep[v].b = b}
ShowsVal  == \A v \in Vars : Show(mem, rep[v]) = val[v]
CountsOk  == \A b \in Blocks : mem[b].rc = Cardinality(Refs(b))
NoLeak    == \A b \in Blocks : mem[b].live <=> Refs(b) # {}
\* an operation on some variables does not show in the others
Isolated  == [][\E touched \in SUBSET Vars : Cardinality(touched) <= 2
                  /\ \A v \in Vars \ touched : Show(mem, rep[v]) = Show(mem', rep'[v])]_vars
SoleWrite == [][\A b \in Blocks : mem[b].live /\ mem'[b].live /\ mem[b].data # mem'[b].data => mem[b].rc = 1]_vars
=============================================================================
