------------------------------- MODULE Stack -------------------------------
(* The lock-free stack of include/lockfree/stack.hpp: a head that is a pointer and a tag, nodes whose memory is used again the
   moment they have been popped, and threads that can be arbitrarily slow between any two steps. `abs` is the sequence that a
   stack is; each operation takes effect on it at once, when its compare-and-swap succeeds (or when it finds nothing).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Nodes, Ops, TAGS      \* operations per thread; TAGS = 0: without tags
NULL == 0
VARIABLES head, next, pc, seen, nx, seg, owner, abs, left, bad
vars == <<head, next, pc, seen, nx, seg, owner, abs, left, bad>>
Free == 0      \* owner of a node that is on the stack

Bump(t) == IF TAGS = 0 THEN 0 ELSE (t + 1) % TAGS

Init == /\ head = [p |-> NULL, tag |-> 0]
        /\ next = [n \in Nodes |-> NULL]
        /\ owner \in {f \in [Nodes -> Threads] : \A a, b \in Nodes : a < b => f[a] <= f[b]}
        /\ pc = [t \in Threads |-> "idle"]
        /\ seen = [t \in Threads |-> head] /\ nx = [t \in Threads |-> NULL] /\ seg = [t \in Threads |-> <<>>]
        /\ abs = <<>> /\ left = [t \in Threads |-> Ops] /\ bad = ""

(* the owner links the nodes it is about to push: their memory is its own *)
StartPush(t) == /\ pc[t] = "idle" /\ left[t] > 0
                /\ \E a \in {n \in Nodes : owner[n] = t} : \E b \in {n \in Nodes : owner[n] = t} :
                     LET s == IF a = b THEN <<a>> ELSE <<a, b>> IN
                     /\ seg' = [seg EXCEPT ![t] = s]
                     /\ next' = IF a = b THEN next ELSE [next EXCEPT ![a] = b]
                /\ pc' = [pc EXCEPT ![t] = "store"] /\ seen' = [seen EXCEPT ![t] = head]
                /\ left' = [left EXCEPT ![t] = @ - 1]
                /\ UNCHANGED <<head, nx, owner, abs, bad>>
StoreNext(t) == /\ pc[t] = "store"
                /\ next' = [next EXCEPT ![seg[t][Len(seg[t])]] = seen[t].p]
                /\ pc' = [pc EXCEPT ![t] = "push"]
                /\ UNCHANGED <<head, seen, nx, seg, owner, abs, left, bad>>
Push(t) == /\ pc[t] = "push"
           /\ IF head = seen[t]
              THEN /\ head' = [p |-> seg[t][1], tag |-> Bump(head.tag)]
                   /\ abs' = seg[t] \o abs
                   /\ owner' = [n \in Nodes |-> IF \E k \in 1..Len(seg[t]) : seg[t][k] = n THEN Free ELSE owner[n]]
                   /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED seen
              ELSE /\ seen' = [seen EXCEPT ![t] = head] /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED <<head, abs, owner>>
           /\ UNCHANGED <<next, nx, seg, left, bad>>
StartPop(t) == /\ pc[t] = "idle" /\ left[t] > 0
               /\ seen' = [seen EXCEPT ![t] = head] /\ left' = [left EXCEPT ![t] = @ - 1]
               /\ pc' = [pc EXCEPT ![t] = IF head.p = NULL THEN "idle" ELSE "read"]
               /\ bad' = IF head.p = NULL /\ abs # <<>> THEN "finds nothing though there is something" ELSE bad
               /\ UNCHANGED <<head, next, nx, seg, owner, abs>>
ReadNext(t) == /\ pc[t] = "read"
               /\ nx' = [nx EXCEPT ![t] = next[seen[t].p]]      \* perhaps somebody else's memory by now
               /\ pc' = [pc EXCEPT ![t] = "pop"]
               /\ UNCHANGED <<head, next, seen, seg, owner, abs, left, bad>>
Pop(t) == /\ pc[t] = "pop"
          /\ IF head = seen[t]
             THEN /\ head' = [p |-> nx[t], tag |-> Bump(head.tag)]
                  /\ IF abs # <<>> /\ Head(abs) = seen[t].p
                     THEN abs' = Tail(abs) /\ owner' = [owner EXCEPT ![seen[t].p] = t] /\ UNCHANGED bad
                     ELSE bad' = "pops what is not on top" /\ UNCHANGED <<abs, owner>>
                  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED seen
             ELSE /\ seen' = [seen EXCEPT ![t] = head]
                  /\ pc' = [pc EXCEPT ![t] = IF head.p = NULL THEN "idle" ELSE "read"]
                  /\ bad' = IF head.p = NULL /\ abs # <<>> THEN "finds nothing though there is something" ELSE bad
                  /\ UNCHANGED <<head, abs, owner>>
          /\ UNCHANGED <<next, nx, seg, left>>
Next == \E t \in Threads : StartPush(t) \/ StoreNext(t) \/ Push(t) \/ StartPop(t) \/ ReadNext(t) \/ Pop(t)
Spec == Init /\ [][Next]_vars

RECURSIVE From(_, _)
From(p, k) == IF p = NULL \/ k = 0 THEN <<>> ELSE <<p>> \o From(next[p], k - 1)
(* what hangs off the head is what the stack holds *)
Faithful == bad = "" /\ From(head.p, Cardinality(Nodes) + 1) = abs
OneOwner == \A n \in Nodes : (owner[n] = Free) = (\E k \in 1..Len(abs) : abs[k] = n)
=============================================================================
