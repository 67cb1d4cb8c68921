------------------------------- MODULE ParFor -------------------------------
(* parallel_for of include/par/parfor.cpp: the caller splits the range into batches, puts all but one onto a stack that everybody
   takes from, runs the last one, helps with whatever there is on the stack, and sleeps when there is nothing left but others still
   work for it. A condition variable may serve several calls. Calls may nest: a batch may itself make one.
   Checked: every batch is run once, a call returns when all of its batches have ended and nobody uses it from then on, and
   everything comes to an end.                                                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Shape,      \* which calls there are
          Workers,    \* threads that make no calls of their own
          Locked,     \* the mutex is taken between the last decrement and the notification
          All         \* everybody who sleeps is notified

(* a call: how many batches, who makes it (a thread <<m>>, or batch <<c, b>> of a call), and its condition variable *)
Calls == CASE Shape = "one"    -> << [n |-> 3, by |-> <<1>>, cv |-> 1] >>
           [] Shape = "two"    -> << [n |-> 2, by |-> <<1>>, cv |-> 1], [n |-> 2, by |-> <<2>>, cv |-> 1] >>
           [] Shape = "again"  -> << [n |-> 3, by |-> <<1>>, cv |-> 1], [n |-> 2, by |-> <<1>>, cv |-> 1] >>
           [] Shape = "nested" -> << [n |-> 3, by |-> <<1>>, cv |-> 1], [n |-> 2, by |-> <<1, 1>>, cv |-> 1], [n |-> 2, by |-> <<1, 3>>, cv |-> 2] >>
           [] Shape = "deep"   -> << [n |-> 2, by |-> <<1>>, cv |-> 1], [n |-> 2, by |-> <<1, 2>>, cv |-> 2], [n |-> 2, by |-> <<2, 1>>, cv |-> 1] >>
C == 1..Len(Calls)
Masters == {Calls[c].by[1] : c \in {x \in C : Len(Calls[x].by) = 1}}
Threads == Masters \cup {10 + w : w \in 1..Workers}
Cvs == {Calls[c].cv : c \in C}
Of(x) == {c \in C : Calls[c].by = x}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES stack,      \* the batches to be had
          frames,     \* what each thread is in the middle of
          pending, ran, ended, state, mtx, asleep
vars == <<stack, frames, pending, ran, ended, state, mtx, asleep>>

Init == /\ stack = <<>> /\ frames = [t \in Threads |-> <<>>]
        /\ pending = [c \in C |-> 0] /\ state = [c \in C |-> "new"]
        /\ ran = [c \in C |-> [b \in 1..Calls[c].n |-> 0]] /\ ended = ran
        /\ mtx = [v \in Cvs |-> 0] /\ asleep = [v \in Cvs |-> {}]

Top(t) == frames[t][Len(frames[t])]
Has(t, k) == Len(frames[t]) > 0 /\ Top(t).k = k
At(t, k, pc) == Has(t, k) /\ Top(t).pc = pc
Set(t, pc) == frames' = [frames EXCEPT ![t][Len(frames[t])].pc = pc]
Enter(t, f) == frames' = [frames EXCEPT ![t] = Append(@, f)]
Leave(t) == frames' = [frames EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Task(c, b, own) == [k |-> "task", c |-> c, b |-> b, pc |-> "body", own |-> own]
Call(c) == [k |-> "call", c |-> c, b |-> 0, pc |-> "push", own |-> FALSE]

New(t, by) == LET S == {c \in Of(by) : state[c] = "new"} IN
              /\ S # {} /\ Enter(t, Call(Least(S))) /\ state' = [state EXCEPT ![Least(S)] = "on"]
              /\ UNCHANGED <<stack, pending, ran, ended, mtx, asleep>>
StartRoot(t) == t \in Masters /\ frames[t] = <<>> /\ New(t, <<t>>)

Push(t) == /\ At(t, "call", "push")
           /\ LET c == Top(t).c n == Calls[c].n IN
              /\ pending' = [pending EXCEPT ![c] = n]
              /\ stack' = [b \in 1..n - 1 |-> <<c, b>>] \o stack
              /\ ran' = [ran EXCEPT ![c][n] = @ + 1]
              /\ frames' = [frames EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].pc = "check"], Task(c, n, TRUE))]
           /\ UNCHANGED <<ended, state, mtx, asleep>>

(* a worker with nothing to do, or a caller that helps *)
Take(t) == /\ (t \notin Masters /\ frames[t] = <<>>) \/ At(t, "call", "try")
           /\ stack # <<>>
           /\ LET x == Head(stack) IN
              /\ stack' = Tail(stack)
              /\ ran' = [ran EXCEPT ![x[1]][x[2]] = @ + 1]
              /\ frames' = [frames EXCEPT ![t] = Append(IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)].pc = "check"], Task(x[1], x[2], FALSE))]
           /\ UNCHANGED <<pending, ended, state, mtx, asleep>>

Body(t) == /\ At(t, "task", "body")
           /\ LET f == Top(t) IN
              IF \E c \in Of(<<f.c, f.b>>) : state[c] = "new" THEN New(t, <<f.c, f.b>>)
              ELSE /\ ended' = [ended EXCEPT ![f.c][f.b] = @ + 1] /\ Set(t, "dec") /\ UNCHANGED <<stack, pending, ran, state, mtx, asleep>>
Dec(t) == /\ At(t, "task", "dec")
          /\ LET f == Top(t) IN
             /\ pending' = [pending EXCEPT ![f.c] = @ - 1]
             /\ IF pending[f.c] = 1 THEN Set(t, IF Locked THEN "lock" ELSE "notify") ELSE Leave(t)
          /\ UNCHANGED <<stack, ran, ended, state, mtx, asleep>>
TaskLock(t) == /\ At(t, "task", "lock") /\ mtx[Calls[Top(t).c].cv] = 0 /\ Set(t, "notify")
               /\ UNCHANGED <<stack, pending, ran, ended, state, mtx, asleep>>
Notify(t) == /\ At(t, "task", "notify")
             /\ LET v == Calls[Top(t).c].cv IN
                IF All \/ asleep[v] = {} THEN asleep' = [asleep EXCEPT ![v] = {}]
                ELSE \E u \in asleep[v] : asleep' = [asleep EXCEPT ![v] = @ \ {u}]
             /\ Leave(t)
             /\ UNCHANGED <<stack, pending, ran, ended, state, mtx>>

V(t) == Calls[Top(t).c].cv
Check(t) == /\ At(t, "call", "check")
            /\ Set(t, IF pending[Top(t).c] = 0 THEN "ret" ELSE "try") /\ UNCHANGED <<stack, pending, ran, ended, state, mtx, asleep>>
Idle(t) == /\ At(t, "call", "try") /\ stack = <<>> /\ Set(t, "lock") /\ UNCHANGED <<stack, pending, ran, ended, state, mtx, asleep>>
Lock(t) == /\ At(t, "call", "lock") /\ mtx[V(t)] = 0 /\ mtx' = [mtx EXCEPT ![V(t)] = t]
           /\ Set(t, "again") /\ UNCHANGED <<stack, pending, ran, ended, state, asleep>>
Again(t) == /\ At(t, "call", "again")
            /\ IF pending[Top(t).c] = 0 THEN Set(t, "ret") /\ mtx' = [mtx EXCEPT ![V(t)] = 0] ELSE Set(t, "wait") /\ UNCHANGED mtx
            /\ UNCHANGED <<stack, pending, ran, ended, state, asleep>>
Wait(t) == /\ At(t, "call", "wait") /\ Set(t, "asleep")
           /\ mtx' = [mtx EXCEPT ![V(t)] = 0] /\ asleep' = [asleep EXCEPT ![V(t)] = @ \cup {t}]
           /\ UNCHANGED <<stack, pending, ran, ended, state>>
Wake(t) == /\ At(t, "call", "asleep") /\ t \notin asleep[V(t)] /\ mtx[V(t)] = 0 /\ Set(t, "check")
           /\ UNCHANGED <<stack, pending, ran, ended, state, mtx, asleep>>
Ret(t) == /\ At(t, "call", "ret") /\ state' = [state EXCEPT ![Top(t).c] = "done"] /\ Leave(t)
          /\ UNCHANGED <<stack, pending, ran, ended, mtx, asleep>>

Over == \A c \in C : state[c] = "done"
Quiet == Over /\ UNCHANGED vars
Steps(t) == StartRoot(t) \/ Push(t) \/ Take(t) \/ Body(t) \/ Dec(t) \/ TaskLock(t) \/ Notify(t) \/ Check(t) \/ Idle(t) \/ Lock(t) \/ Again(t) \/ Wait(t) \/ Wake(t) \/ Ret(t)
Next == (\E t \in Threads : Steps(t)) \/ Quiet
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Steps(t))

EachOnce == \A c \in C : \A b \in 1..Calls[c].n : ran[c][b] <= 1 /\ ended[c][b] <= ran[c][b]
ReturnsLast == \A c \in C : state[c] = "done" => \A b \in 1..Calls[c].n : ended[c][b] = 1
(* the caller's memory is the call's: the range, the function and the count. A batch that has been counted off does not touch it *)
NoneLeft == \A c \in C : state[c] = "done" =>
              /\ \A k \in 1..Len(stack) : stack[k][1] # c
              /\ \A t \in Threads : \A k \in 1..Len(frames[t]) : frames[t][k].c = c => frames[t][k].pc \in {"lock", "notify"}
Ends == <>Over
=============================================================================
