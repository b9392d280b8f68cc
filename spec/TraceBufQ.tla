----------------------------- MODULE TraceBufQ -----------------------------
(* Histories of CBufferQueue: sequential ones, and one producer with one consumer (possibly two processes on shared
   memory, either of which may die in the middle of a call).                                                        *)
EXTENDS BufQ, TraceBase
VARIABLE pend
vars == <<room, q, l, pend>>
Threads == 0..3
Idle == [st |-> "idle"]
TInit == room = 0 /\ q = <<>> /\ l = 1 /\ pend = [t \in Threads |-> Idle]
Reset == IsEvent("Reset") /\ Create(Ev.room) /\ pend' = [t \in Threads |-> Idle]
Call == /\ IsEvent("Call") /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]] /\ UNCHANGED bqVars
Min(a, b) == IF a < b THEN a ELSE b
Effect(c) ==
  CASE c.op = "push" -> Push(c.p, c.r = 1)
    [] c.op = "pop" -> IF c.r[1] = 0 THEN PopNone ELSE IF c.r[1] = 1 THEN Pop(c.r[2], c.space) ELSE PopTooLong(c.space)
    [] c.op = "pop2" -> IF c.r[1] = 0 THEN PopNone
                        ELSE IF c.r[1] = 1 THEN /\ Pop(c.r[2] \o c.r[3], c.s1 + c.s2)
                                                /\ L(c.r[2]) = Min(c.s1, L(Head(q)))
                        ELSE PopTooLong(c.s1 + c.s2)
    [] c.op = "full" -> Full(c.n, c.r = 1)
    [] c.op = "empty" -> Empty(c.r = 1)
    [] c.op = "size" -> Size(c.r)
    [] c.op = "attach" -> c.r = (IF c.same = 1 THEN 1 ELSE 0) /\ UNCHANGED bqVars
    [] c.op = "create" -> c.r = 1 /\ Create(c.room)
\* one that died in a call: the call has happened or not
Dead(c) == CASE c.op = "push" -> (IF L(c.p) > 0 /\ Fits(L(c.p)) THEN q' = Append(q, c.p) /\ UNCHANGED room ELSE FALSE)
             [] c.op \in {"pop", "pop2"} -> q # <<>> /\ q' = Tail(q) /\ UNCHANGED room
             [] OTHER -> FALSE
Lin == /\ l <= Len(Trace) /\ Ev.e \in {"Ret", "Call", "End"}
       /\ \E t \in Threads : /\ pend[t].st = "called"
                             /\ IF pend[t].c.ok = 1 THEN Effect(pend[t].c) ELSE Dead(pend[t].c)
                             /\ pend' = [pend EXCEPT ![t] = [st |-> "done"]]
       /\ UNCHANGED l
Ret == IsEvent("Ret") /\ pend[Ev.t].st = "done" /\ pend' = [pend EXCEPT ![Ev.t] = Idle] /\ UNCHANGED bqVars
Killed == IsEvent("Killed") /\ UNCHANGED <<room, q, pend>>
\* the bytes on both sides of the block are what they were
End == IsEvent("End") /\ Ev.guard = 1 /\ UNCHANGED <<room, q, pend>>
TNext == Reset \/ Call \/ Lin \/ Ret \/ Killed \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
