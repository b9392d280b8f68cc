----------------------------- MODULE TraceQueue -----------------------------
(* Histories of the blocking queue and of the single-producer single-consumer queue: accepted iff every
   returned call can be given a point between its start and its end at which Queue explains its result.
   A call that the recorder saw blocked (event Quiet) must be one that Queue does not enable. *)
EXTENDS Queue, TraceBase
VARIABLE pend
vars == <<cap, q, l, pend>>
Threads == 0..7
Idle == [st |-> "idle"]
TInit == QInit(1) /\ l = 1 /\ pend = [t \in Threads |-> Idle]
Reset == /\ IsEvent("Reset") /\ cap' = Ev.cap /\ q' = <<>> /\ pend' = [t \in Threads |-> Idle]
Call == /\ IsEvent("Call") /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]]
        /\ UNCHANGED qVars
Effect(c) ==
  CASE c.op = "push" -> Push(c.v)
    [] c.op = "pop" -> Pop(c.r[2])
    [] c.op = "tpop" -> IF c.r[1] = 1 THEN Pop(c.r[2]) ELSE PopTimeout(c.r[3] - c.now, c.ms)
    [] c.op = "trypush" -> TryPush(c.v, c.r)
    [] c.op = "trypop" -> TryPop(c.r[1], c.r[2])
    [] c.op = "front" -> Front(c.r[1], c.r[2])
    [] c.op = "back" -> Back(c.r[1], c.r[2])
    [] c.op = "size" -> Size(c.r)
    [] c.op = "empty" -> Empty(c.r)
    [] c.op = "full" -> Full(c.r)
    [] c.op = "max" -> MaxSize(c.r)
    [] c.op = "clear" -> Clear
Lin == /\ l <= Len(Trace) /\ Ev.e \in {"Ret", "Quiet", "End"}
       /\ \E t \in Threads : /\ pend[t].st = "called" /\ pend[t].c.ok = 1
                             /\ Effect(pend[t].c)
                             /\ pend' = [pend EXCEPT ![t] = [st |-> "done"]]
       /\ UNCHANGED l
Ret == /\ IsEvent("Ret") /\ pend[Ev.t].st = "done"
       \* a timed pop that fails does not overstay when nothing else runs
       /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
       /\ UNCHANGED qVars
\* everybody who is still in a call is blocked: the call must not be possible
Blocked(c) == CASE c.op = "push" -> Len(q) = cap
                [] c.op = "pop" -> q = <<>>
                [] c.op = "tpop" -> q = <<>>
                [] OTHER -> FALSE
Quiet == /\ IsEvent("Quiet")
         /\ \A t \in Threads : pend[t].st = "idle" \/ (pend[t].st = "called" /\ Blocked(pend[t].c))
         /\ UNCHANGED <<cap, q, pend>>
End == IsEvent("End") /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED <<cap, q, pend>>
\* a failed timed pop in an otherwise silent program comes back within a millisecond of its limit
Exact == /\ IsEvent("Exact") /\ Ev.waited >= Ev.ms /\ Ev.waited <= Ev.ms + 1 /\ UNCHANGED <<cap, q, pend>>
TNext == Reset \/ Call \/ Lin \/ Ret \/ Quiet \/ End \/ Exact
TSpec == TInit /\ [][TNext]_vars
=============================================================================
