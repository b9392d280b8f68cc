----------------------------- MODULE TraceSync ------------------------------
(* A recorded history of concurrent calls on locks and conditions: linearizable, on time, and blocked only where
   blocking is right (time passes only while every unfinished call has a reason to wait). *)
EXTENDS Sync, TraceBase
CONSTANT Slack
VARIABLES pend, spur
vars == <<own, wr, rd, ws, now, l, pend, spur>>
Threads == 0..7
Locks == 1..3
Idle == [st |-> "idle"]
TInit == SyncInit(Threads, Locks) /\ l = 1 /\ pend = [t \in Threads |-> Idle] /\ spur = FALSE

Reset == /\ IsEvent("Reset")
         /\ own' = [k \in Locks |-> -1] /\ wr' = -1 /\ rd' = {} /\ ws' = [t \in Threads |-> NoWait] /\ now' = Ev.now
         /\ pend' = [t \in Threads |-> Idle] /\ spur' = (Ev.spur = 1)
InTime == Ev.now = now
Call == /\ IsEvent("Call") /\ InTime
        /\ pend[Ev.t].st = "idle"
        /\ pend' = [pend EXCEPT ![Ev.t] = [st |-> "called", c |-> Ev]]
        /\ UNCHANGED <<own, wr, rd, ws, now, spur>>
Effect(t, c) ==
  CASE c.op = "lock" -> c.r = 1 /\ Lock(t, c.a)
    [] c.op = "try" -> IF c.r = 1 THEN Lock(t, c.a) ELSE TryFails(c.a)
    [] c.op = "unlock" -> c.r = 1 /\ Unlock(t, c.a)
    [] c.op = "rlock" -> c.r = 1 /\ ReadLock(t)
    [] c.op = "wlock" -> c.r = 1 /\ WriteLock(t)
    [] c.op = "tryr" -> IF c.r = 1 THEN ReadLock(t) ELSE TryReadFails
    [] c.op = "tryw" -> IF c.r = 1 THEN WriteLock(t) ELSE TryWriteFails
    [] c.op = "rwunlock" -> c.r = 1 /\ RwUnlock(t)
    [] c.op = "signal" -> c.r = 1 /\ Signal(c.a)
    [] c.op = "broadcast" -> c.r = 1 /\ Broadcast(c.a)
    [] c.op = "sleep" -> now >= c.now + c.a /\ UNCHANGED syncVars
    [] OTHER -> FALSE
Silent == l <= Len(Trace) /\ Ev.e \in {"Ret", "End"} /\ UNCHANGED <<l, spur>>
Lin(t) == /\ Silent
          /\ pend[t].st = "called" /\ pend[t].c.ok = 1 /\ pend[t].c.op # "wait"
          /\ Effect(t, pend[t].c)
          /\ pend' = [pend EXCEPT ![t].st = "done"]
Enter(t) == /\ Silent
            /\ pend[t].st = "called" /\ pend[t].c.op = "wait"
            /\ WaitEnter(t, pend[t].c.a, pend[t].c.m, IF pend[t].c.d < 0 THEN -1 ELSE pend[t].c.now + 1000 * pend[t].c.d)
            /\ pend' = [pend EXCEPT ![t].st = "in"]
Expire(t) == Silent /\ pend[t].st = "in" /\ TimeOut(t) /\ UNCHANGED pend
Spur(t) == Silent /\ pend[t].st = "in" /\ spur /\ Spurious(t) /\ UNCHANGED pend
Leave(t) == /\ Silent
            /\ pend[t].st = "in" /\ pend[t].c.ok = 1
            /\ WaitLeave(t, pend[t].c.r = 1)
            /\ pend' = [pend EXCEPT ![t].st = "done"]
Ret == /\ IsEvent("Ret") /\ InTime
       /\ pend[Ev.t].st = "done"
       /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
       /\ UNCHANGED <<own, wr, rd, ws, now, spur>>
Until(t) == pend[t].c.now + pend[t].c.a
Blocked(t) == CASE pend[t].st = "idle" -> TRUE
                [] pend[t].st = "done" -> FALSE
                [] pend[t].st = "in" -> WaitBlocked(t)
                [] pend[t].c.op = "lock" -> ~CanLock(pend[t].c.a)
                [] pend[t].c.op = "rlock" -> ~CanRead
                [] pend[t].c.op = "wlock" -> ~CanWrite
                [] pend[t].c.op = "sleep" -> now < Until(t)
                [] OTHER -> FALSE
\* the next moment something happens
Deadlines == {ws[t].dl : t \in {u \in Threads : ws[u].st = "wait" /\ ws[u].dl > now}}
             \cup {Until(t) : t \in {u \in Threads : pend[u].st = "called" /\ pend[u].c.op = "sleep" /\ Until(u) > now}}
Next_(S) == CHOOSE x \in S : \A y \in S : x <= y
TimeStep == /\ l <= Len(Trace) /\ Ev.e # "Reset" /\ Ev.now > now
            /\ LET n == Next_({d \in Deadlines : d < Ev.now} \cup {Ev.now}) IN
               /\ n - now <= Slack \/ \A t \in Threads : Blocked(t)
               /\ now' = n
            /\ UNCHANGED <<own, wr, rd, ws, l, pend, spur>>
End == /\ IsEvent("End") /\ InTime
       /\ \A t \in Threads : (pend[t].st # "idle") = (\E i \in DOMAIN Ev.alive : Ev.alive[i] = t)
       /\ \A t \in Threads : Blocked(t) /\ (ws[t].st = "wait" => ws[t].dl = -1)
       /\ UNCHANGED <<own, wr, rd, ws, now, pend, spur>>
TNext == \/ Reset \/ Call \/ Ret \/ End \/ TimeStep
         \/ \E t \in Threads : Lin(t) \/ Enter(t) \/ Expire(t) \/ Spur(t) \/ Leave(t)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
