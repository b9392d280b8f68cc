---------------------------- MODULE TraceThread -----------------------------
(* A recorded history of calls on thread objects and singletons, and of what their run() saw. *)
EXTENDS Thread, TraceBase
VARIABLES pend
vars == <<th, one, l, pend>>
Threads == 0..31
Idle == [st |-> "idle"]
TInit == ThrInit(1..3, 1..2) /\ l = 1 /\ pend = [t \in Threads |-> Idle]
Reset == /\ IsEvent("Reset")
         /\ th' = [o \in 1..3 |-> NewThr] /\ one' = [k \in 1..2 |-> "none"]
         /\ pend' = [t \in Threads |-> Idle]
Call == /\ IsEvent("Call") /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]]
        /\ UNCHANGED thrVars
Effect(c) ==
  CASE c.op = "start" -> IF c.r = 0 THEN Start(c.o) ELSE c.f = 1 /\ StartFails(c.o)
    [] c.op = "stop" -> Stop(c.o)
    [] c.op = "stopped" -> IsStopped(c.o, c.r = 1)
    [] c.op = "join" -> c.r = 0 /\ Join(c.o)
    [] c.op = "detach" -> c.r = 0 /\ Detach(c.o)
    [] c.op = "delete" -> Delete(c.o)
    [] c.op = "get" -> c.r = 1 /\ Get(c.o)
\* a call takes effect between its beginning and its end; thread events need it done before they are explained
Lin(t) == /\ l <= Len(Trace) /\ Ev.e \in {"Ret", "RunB", "RunE"}
          /\ pend[t].st = "called" /\ (pend[t].c.ok = 1 \/ pend[t].c.op = "stop")
          /\ Effect(pend[t].c)
          /\ pend' = [pend EXCEPT ![t].st = "done"]
          /\ UNCHANGED l
\* stopping a thread that has just ended may say so
Ret == IsEvent("Ret") /\ pend[Ev.t].st = "done"
       /\ (pend[Ev.t].c.op = "stop" /\ Ev.r # 0 => th[pend[Ev.t].c.o].st = "over")
       /\ pend' = [pend EXCEPT ![Ev.t] = Idle] /\ UNCHANGED thrVars
\* in a thread of its own, shielded from SIGPIPE
RunB == IsEvent("RunB") /\ RunBegin(Ev.o) /\ Ev.own = 1 /\ Ev.sig = 1 /\ UNCHANGED pend
RunE == /\ IsEvent("RunE") /\ RunEnd(Ev.o, Ev.cut = 1)
        /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
Making == IsEvent("Making") /\ Make(Ev.o) /\ UNCHANGED pend
MadeE == IsEvent("Made") /\ Made(Ev.o) /\ UNCHANGED pend
End == /\ IsEvent("End") /\ (\A t \in Threads : pend[t].st = "idle")
       /\ (\A o \in DOMAIN th : th[o].st \notin {"live", "run"})
       /\ UNCHANGED <<th, one, pend>>
TNext == Reset \/ Call \/ Ret \/ RunB \/ RunE \/ Making \/ MadeE \/ End \/ \E t \in Threads : Lin(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
