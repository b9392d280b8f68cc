----------------------------- MODULE TraceTask -----------------------------
EXTENDS Task, TraceBase
VARIABLES pend, late
vars == <<max, q, work, phase, l, pend, late>>
Threads == 0..15
Idle == [st |-> "idle"]
TInit == TaskInit(1, 1) /\ l = 1 /\ pend = [t \in Threads |-> Idle] /\ late = {}
Reset == /\ IsEvent("Reset") /\ max' = Ev.max /\ q' = <<>> /\ work' = [w \in 0..Ev.n-1 |-> None] /\ phase' = "new"
         /\ pend' = [t \in Threads |-> Idle] /\ late' = {}
Call == /\ IsEvent("Call") /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]] /\ UNCHANGED <<taskVars, late>>
Lin == /\ l <= Len(Trace) /\ Ev.e \in {"Ret", "Work", "Quiet"}
       /\ \E t \in Threads : /\ pend[t].st = "called" /\ pend[t].c.ok = 1
                             /\ Dispatch(pend[t].c.id, pend[t].c.r = 0)
                             /\ pend' = [pend EXCEPT ![t] = [st |-> "done"]]
       /\ UNCHANGED <<l, late>>
Ret == IsEvent("Ret") /\ pend[Ev.t].st = "done" /\ pend' = [pend EXCEPT ![Ev.t] = Idle] /\ UNCHANGED <<taskVars, late>>
\* after the pool was stopped a worker may finish one more round
TakeIt == /\ l <= Len(Trace) /\ Ev.e \in {"Ret", "Work", "Quiet"}
          /\ \E w \in DOMAIN work : /\ Take(w) /\ (phase = "off" => w \notin late)
                                    /\ late' = IF phase = "off" THEN late \cup {w} ELSE late
          /\ UNCHANGED <<l, pend>>
Runs == IsEvent("Run") /\ Run /\ UNCHANGED <<pend, late>>
Work == IsEvent("Work") /\ Ev.w \in DOMAIN work /\ Ev.type = Ev.id % 5 /\ Begin(Ev.w, Ev.id) /\ UNCHANGED <<pend, late>>
WorkEnd == IsEvent("Done") /\ Ev.w \in DOMAIN work /\ Done(Ev.w, Ev.id) /\ UNCHANGED <<pend, late>>
Stop == IsEvent("Stop") /\ StopCall /\ UNCHANGED <<pend, late>>
Stopped == IsEvent("StopRet") /\ StopRet /\ UNCHANGED <<pend, late>>
Quiet == /\ IsEvent("Quiet") /\ QuietOk /\ (\A t \in Threads : pend[t].st = "idle") /\ UNCHANGED <<taskVars, pend, late>>
\* workers alive after a stop: none, once nothing holds them up in a task
End == IsEvent("End") /\ (phase = "off" => Ev.alive = 0) /\ (phase = "on" => q = <<>>) /\ UNCHANGED <<taskVars, pend, late>>
TNext == Reset \/ Call \/ Lin \/ Ret \/ TakeIt \/ Runs \/ Work \/ WorkEnd \/ Stop \/ Stopped \/ Quiet \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
