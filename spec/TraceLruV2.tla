----------------------------- MODULE TraceLruV2 -----------------------------
(* A recorded history of calls of a divided LRU cache, judged by LruV2. *)
EXTENDS LruV2, TraceBase
VARIABLE pend     \* thread -> its unfinished call
vars == <<cap, ent, sure, now, l, pend>>
Threads == 0..7
Idle == [st |-> "idle"]
TInit == V2Init(1) /\ l = 1 /\ pend = [t \in Threads |-> Idle]
Reset == IsEvent("Reset") /\ cap' = Ev.cap /\ ent' = << >> /\ sure' = {} /\ now' = 0 /\ pend' = [t \in Threads |-> Idle]
Call == /\ IsEvent("Call") /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]]
        /\ UNCHANGED v2Vars
Effect(c) ==
  CASE c.op = "set" -> V2Set(c.k, c.v, c.x)
    [] c.op = "get" -> IF c.r[1] = 1 THEN V2Hit(c.k, c.r[2]) ELSE V2Miss(c.k)
    [] c.op = "del" -> V2Del(c.k)
    [] c.op = "clear" -> V2Clear
    [] c.op = "size" -> V2Size(c.r)
    [] c.op = "maxsize" -> V2Max(c.r)
Lin == /\ l <= Len(Trace) /\ Ev.e \in {"Ret", "Tick"}
       /\ \E t \in Threads : /\ pend[t].st = "called" /\ pend[t].c.ok = 1
                             /\ Effect(pend[t].c)
                             /\ pend' = [pend EXCEPT ![t] = [st |-> "done"]]
       /\ UNCHANGED l
Ret == IsEvent("Ret") /\ pend[Ev.t].st = "done" /\ pend' = [pend EXCEPT ![Ev.t] = Idle] /\ UNCHANGED v2Vars
TickE == IsEvent("Tick") /\ V2Tick(Ev.d) /\ UNCHANGED pend
End == IsEvent("End") /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED <<cap, ent, sure, now, pend>>
TNext == Reset \/ Call \/ Lin \/ Ret \/ TickE \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
