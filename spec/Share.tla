------------------------------- MODULE Share -------------------------------
(* How arrays share memory between threads (include/fu/mem/arc.h, include/fu/vec.h): a buffer counts how many more handles than one
   there are; whoever is about to write looks whether it is the only one, and else makes a buffer of its own; whoever drops the
   last handle frees. Happens-before is modelled by clocks (as in ParTrace): no two threads use a buffer without synchronization
   in between, at least one of them writing or freeing; nothing is used after it has been freed.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Ops, Acquire      \* Acquire: looking whether one is the only one synchronizes
Bufs == 1..(1 + Cardinality(Threads) * Ops)
VARIABLES hold, pc, at, left, count, made, freed, clock, rel, reads, writes, bad
vars == <<hold, pc, at, left, count, made, freed, clock, rel, reads, writes, bad>>
Zero == [t \in Threads |-> 0]
Join(a, b) == [t \in Threads |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Before(a, b) == \A t \in Threads : a[t] <= b[t]
Init == /\ hold = [t \in Threads |-> <<1>>] /\ made = 1
        /\ count = [b \in Bufs |-> IF b = 1 THEN Cardinality(Threads) - 1 ELSE 0]
        /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Ops]
        /\ freed = {} /\ bad = ""
        /\ clock = [t \in Threads |-> [u \in Threads |-> IF t = u THEN 1 ELSE 0]]
        /\ rel = [b \in Bufs |-> Zero] /\ reads = [b \in Bufs |-> Zero] /\ writes = [b \in Bufs |-> Zero]

B(t) == hold[t][at[t]]
Use(t, b, w) == bad' = IF bad # "" THEN bad ELSE IF b \in freed THEN "used after it was freed"
                       ELSE IF ~ Before(writes[b], clock[t]) \/ (w /\ ~ Before(reads[b], clock[t])) THEN "used by two at once" ELSE ""
Reads(t, b) == Use(t, b, FALSE) /\ reads' = [reads EXCEPT ![b][t] = clock[t][t]] /\ UNCHANGED writes
Writes(t, b) == Use(t, b, TRUE) /\ writes' = [writes EXCEPT ![b] = [u \in Threads |-> IF u = t THEN clock[t][t] ELSE 0]] /\ UNCHANGED reads
Go(t, p) == pc' = [pc EXCEPT ![t] = p]

Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ hold[t] # <<>>
            /\ \E k \in 1..Len(hold[t]) : at' = [at EXCEPT ![t] = k]
            /\ \E p \in {"look", "dup", "drop", "read"} : Go(t, p)
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<hold, count, made, freed, clock, rel, reads, writes, bad>>
Read(t) == /\ pc[t] = "read" /\ Reads(t, B(t)) /\ Go(t, "idle") /\ UNCHANGED <<hold, at, left, count, made, freed, clock, rel>>
Dup(t) == /\ pc[t] = "dup" /\ Go(t, "idle")
          /\ IF Len(hold[t]) < 2 THEN count' = [count EXCEPT ![B(t)] = @ + 1] /\ hold' = [hold EXCEPT ![t] = Append(@, B(t))] ELSE UNCHANGED <<count, hold>>
          /\ UNCHANGED <<at, left, made, freed, clock, rel, reads, writes, bad>>
(* before writing *)
Look(t) == /\ pc[t] = "look" /\ Go(t, IF count[B(t)] = 0 THEN "write" ELSE "copy")
           /\ clock' = IF Acquire THEN [clock EXCEPT ![t] = Join(@, rel[B(t)])] ELSE clock
           /\ UNCHANGED <<hold, at, left, count, made, freed, rel, reads, writes, bad>>
Write(t) == /\ pc[t] = "write" /\ Writes(t, B(t)) /\ Go(t, "idle") /\ UNCHANGED <<hold, at, left, count, made, freed, clock, rel>>
Copy(t) == /\ pc[t] = "copy" /\ Reads(t, B(t)) /\ Go(t, "leave") /\ UNCHANGED <<hold, at, left, count, made, freed, clock, rel>>
(* one handle fewer; with the last one the buffer goes *)
Dec(t, b) == LET d == Join(clock[t], rel[b]) IN
             /\ rel' = [rel EXCEPT ![b] = d] /\ clock' = [clock EXCEPT ![t] = [d EXCEPT ![t] = @ + 1]]
             /\ IF count[b] = 0
                THEN /\ UNCHANGED count /\ freed' = freed \cup {b}
                     /\ bad' = IF bad # "" THEN bad ELSE IF b \in freed THEN "freed twice"
                               ELSE IF ~ Before(writes[b], d) \/ ~ Before(reads[b], d) THEN "freed while in use" ELSE ""
                ELSE count' = [count EXCEPT ![b] = @ - 1] /\ UNCHANGED <<freed, bad>>
Leave(t) == /\ pc[t] = "leave" /\ Dec(t, B(t)) /\ Go(t, "write")
            /\ made' = made + 1 /\ hold' = [hold EXCEPT ![t][at[t]] = made + 1]
            /\ UNCHANGED <<at, left, reads, writes>>
Drop(t) == /\ pc[t] = "drop" /\ Dec(t, B(t)) /\ Go(t, "idle")
           /\ hold' = [hold EXCEPT ![t] = [k \in 1..Len(@) - 1 |-> IF k < at[t] THEN @[k] ELSE @[k + 1]]]
           /\ UNCHANGED <<at, left, made, reads, writes>>
(* a thread that ends drops what it has *)
Finish(t) == /\ pc[t] = "idle" /\ left[t] = 0 /\ hold[t] # <<>> /\ at' = [at EXCEPT ![t] = 1] /\ Go(t, "drop")
             /\ UNCHANGED <<hold, left, count, made, freed, clock, rel, reads, writes, bad>>
Next == \E t \in Threads : Begin(t) \/ Read(t) \/ Dup(t) \/ Look(t) \/ Write(t) \/ Copy(t) \/ Leave(t) \/ Drop(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
NoRace == bad = ""
Counted == \A b \in 1..made : LET h == Cardinality({<<t, k>> \in Threads \X {1, 2} : k <= Len(hold[t]) /\ hold[t][k] = b}) IN
                              IF b \in freed THEN h = 0 ELSE h = count[b] + 1
=============================================================================
