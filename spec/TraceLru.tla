------------------------------ MODULE TraceLru ------------------------------
(* A recorded history of concurrent calls is accepted iff it is linearizable with respect to Lru. *)
EXTENDS Lru, TraceBase
VARIABLE pend     \* thread -> its unfinished call
vars == <<cap, order, ent, now, l, pend>>

Threads == 0..7
Idle == [st |-> "idle"]
TInit == LruInit(1) /\ l = 1 /\ pend = [t \in Threads |-> Idle]

Reset == /\ IsEvent("Reset")
         /\ cap' = Ev.cap /\ order' = <<>> /\ ent' = << >> /\ now' = 0
         /\ pend' = [t \in Threads |-> Idle]
Call == /\ IsEvent("Call")
        /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]]
        /\ UNCHANGED lruVars
\* the silent step: the call takes effect
Effect(c) ==
  CASE c.op = "set" -> \/ SetOld(c.k, c.v, c.x) \/ SetNone
                       \/ \E n \in 0..MaxBatch : SetNew(c.k, c.v, c.x, n)
    [] c.op = "get" -> IF c.r[1] = 1 THEN GetHit(c.k, c.r[2]) ELSE GetExpired(c.k) \/ GetMiss(c.k)
    [] c.op = "del" -> Del(c.k)
    [] c.op = "clear" -> Clear
    [] c.op = "size" -> Size(c.r)
    [] c.op = "maxsize" -> MaxSize(c.r)
Lin == /\ l <= Len(Trace)
       /\ Ev.e \in {"Ret", "Tick"}
       /\ \E t \in Threads : /\ pend[t].st = "called" /\ pend[t].c.ok = 1
                             /\ Effect(pend[t].c)
                             /\ pend' = [pend EXCEPT ![t] = [st |-> "done"]]
       /\ UNCHANGED l
Ret == /\ IsEvent("Ret")
       /\ pend[Ev.t].st = "done"
       /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
       /\ UNCHANGED lruVars
TickE == IsEvent("Tick") /\ Tick(Ev.d) /\ UNCHANGED pend
End == IsEvent("End") /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED <<cap, order, ent, now, pend>>
TNext == Reset \/ Call \/ Lin \/ Ret \/ TickE \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
