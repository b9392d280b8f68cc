------------------------------- MODULE Thread -------------------------------
(* Thread objects (started, stopped, joined, detached, started again) and singletons. *)
EXTENDS Integers, FiniteSets
VARIABLES th,     \* object -> its thread: st, stop flag, cancelled, detached
          one     \* singleton -> "none", "making", "made"
thrVars == <<th, one>>
NewThr == [st |-> "new", stop |-> FALSE, can |-> FALSE, det |-> FALSE]
ThrInit(O, K) == th = [o \in O |-> NewThr] /\ one = [k \in K |-> "none"]
Gone(o) == th[o].st \in {"new", "gone"} \/ (th[o].st = "over" /\ th[o].det)

Start(o) == /\ Gone(o)
            /\ th' = [th EXCEPT ![o] = [st |-> "live", stop |-> FALSE, can |-> FALSE, det |-> FALSE]]
            /\ UNCHANGED one
StartFails(o) == UNCHANGED thrVars
RunBegin(o) == th[o].st = "live" /\ th' = [th EXCEPT ![o].st = "run"] /\ UNCHANGED one
\* run() returns, or is cut short because the thread was stopped
RunEnd(o, cut) == /\ th[o].st = "run" /\ (cut => th[o].can)
                  /\ th' = [th EXCEPT ![o].st = "over"] /\ UNCHANGED one
Stop(o) == /\ th' = (IF th[o].stop THEN th
                     ELSE [th EXCEPT ![o].stop = TRUE, ![o].can = th[o].st \in {"live", "run"}])
           /\ UNCHANGED one
IsStopped(o, r) == r = th[o].stop /\ UNCHANGED thrVars
CanJoin(o) == th[o].st \in {"new", "gone", "over"}
Join(o) == /\ CanJoin(o) /\ ~th[o].det
           /\ th' = [th EXCEPT ![o].st = IF @ = "over" THEN "gone" ELSE @] /\ UNCHANGED one
Detach(o) == th' = (IF th[o].st \in {"new", "gone"} THEN th ELSE [th EXCEPT ![o].det = TRUE]) /\ UNCHANGED one
\* only of an object whose run() has ended
Delete(o) == /\ th[o].st \in {"new", "gone", "over"}
             /\ th' = [th EXCEPT ![o] = NewThr] /\ UNCHANGED one

Make(k) == one[k] = "none" /\ one' = [one EXCEPT ![k] = "making"] /\ UNCHANGED th
Made(k) == one[k] = "making" /\ one' = [one EXCEPT ![k] = "made"] /\ UNCHANGED th
Get(k) == one[k] = "made" /\ UNCHANGED thrVars
=============================================================================
