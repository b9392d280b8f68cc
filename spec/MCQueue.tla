------------------------------ MODULE MCQueue ------------------------------
(* The queue as a shared object: producers and consumers, each call split into "called" and "returns",
   blocked while it cannot take effect. Checked: each item comes out once, in order, and nobody stays
   blocked although the queue would let him go on (no lost wake-up in the design). *)
EXTENDS Queue, TLC
CONSTANTS Prod, Cons, Items, Caps
VARIABLES left, got, blockedOn
vars == <<cap, q, left, got, blockedOn>>
Init == /\ \E c \in Caps : QInit(c)
        /\ left = [p \in Prod |-> Items] /\ got = <<>>
        /\ blockedOn = [t \in Prod \cup Cons |-> "no"]
Call(t) == /\ blockedOn[t] = "no"
           /\ (t \in Prod => left[t] > 0)
           /\ blockedOn' = [blockedOn EXCEPT ![t] = IF t \in Prod THEN "push" ELSE "pop"]
           /\ UNCHANGED <<cap, q, left, got>>
DoPush(p) == /\ blockedOn[p] = "push" /\ Push(<<p, left[p]>>)
             /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ blockedOn' = [blockedOn EXCEPT ![p] = "no"] /\ UNCHANGED got
DoPop(c) == /\ blockedOn[c] = "pop" /\ q # <<>> /\ Pop(Head(q))
            /\ got' = Append(got, Head(q))
            /\ blockedOn' = [blockedOn EXCEPT ![c] = "no"] /\ UNCHANGED left
Next == (\E t \in Prod \cup Cons : Call(t)) \/ (\E p \in Prod : DoPush(p)) \/ (\E c \in Cons : DoPop(c))
Spec == Init /\ [][Next]_vars /\ \A t \in Prod \cup Cons : WF_vars(Call(t))
             /\ \A p \in Prod : WF_vars(DoPush(p))
             /\ WF_vars(\E c \in Cons : DoPop(c))
\* per producer the items come out in the order they were pushed, none twice
PerProducer(p) == SelectSeq(got \o q, LAMBDA x : x[1] = p)
Fifo == \A p \in Prod : LET s == PerProducer(p) IN
          /\ Len(s) = Items - left[p]
          /\ \A i \in 1..Len(s) : s[i][2] = Items - i + 1
AllThrough == <>(Len(got) = Items * 2)
=============================================================================
