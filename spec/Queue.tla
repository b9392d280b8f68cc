------------------------------- MODULE Queue -------------------------------
(* A bounded FIFO queue with blocking, non-blocking and timed operations.   *)
EXTENDS Naturals, Sequences
VARIABLES cap, q
qVars == <<cap, q>>
QInit(c) == cap = c /\ q = <<>>

Push(v) == Len(q) < cap /\ q' = Append(q, v) /\ UNCHANGED cap
Pop(v) == q # <<>> /\ Head(q) = v /\ q' = Tail(q) /\ UNCHANGED cap
PopTimeout(waited, limit) == q = <<>> /\ waited >= limit /\ UNCHANGED qVars
TryPush(v, ok) == IF ok = 1 THEN Push(v) ELSE Len(q) = cap /\ UNCHANGED qVars
TryPop(ok, v) == IF ok = 1 THEN Pop(v) ELSE q = <<>> /\ UNCHANGED qVars
Front(ok, v) == (IF ok = 1 THEN q # <<>> /\ Head(q) = v ELSE q = <<>>) /\ UNCHANGED qVars
Back(ok, v) == (IF ok = 1 THEN q # <<>> /\ q[Len(q)] = v ELSE q = <<>>) /\ UNCHANGED qVars
Size(n) == n = Len(q) /\ UNCHANGED qVars
Empty(b) == b = (IF q = <<>> THEN 1 ELSE 0) /\ UNCHANGED qVars
Full(b) == b = (IF Len(q) = cap THEN 1 ELSE 0) /\ UNCHANGED qVars
MaxSize(n) == n = cap /\ UNCHANGED qVars
Clear == q' = <<>> /\ UNCHANGED cap

Bounded == Len(q) <= cap
=============================================================================
