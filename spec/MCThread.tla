------------------------------ MODULE MCThread ------------------------------
(* An owner starts a thread, stops it, joins it, and starts it again; the thread works until it is told to stop.
   Others fetch a singleton. *)
EXTENDS Thread, TLC
CONSTANTS Objs, Users, Rounds
VARIABLES pc, rounds, runs, upc, makes
vars == <<th, one, pc, rounds, runs, upc, makes>>
Init == /\ ThrInit(Objs, {1}) /\ pc = [o \in Objs |-> "idle"] /\ rounds = [o \in Objs |-> 0] /\ runs = [o \in Objs |-> 0]
        /\ upc = [u \in Users |-> "ask"] /\ makes = 0
Own(o, a, b) == pc[o] = a /\ pc' = [pc EXCEPT ![o] = b] /\ UNCHANGED <<upc, makes>>
StartA(o) == Own(o, "idle", "on") /\ rounds[o] < Rounds /\ rounds' = [rounds EXCEPT ![o] = @ + 1] /\ Start(o) /\ UNCHANGED runs
StopA(o) == Own(o, "on", "stop") /\ Stop(o) /\ UNCHANGED <<rounds, runs>>
SkipStop(o) == Own(o, "on", "stop") /\ th[o].st = "over" /\ UNCHANGED <<th, one, rounds, runs>>
JoinA(o) == Own(o, "stop", "idle") /\ Join(o) /\ UNCHANGED <<rounds, runs>>
DetachA(o) == Own(o, "stop", "idle") /\ th[o].st = "over" /\ Detach(o) /\ UNCHANGED <<rounds, runs>>
Keep == UNCHANGED <<pc, rounds, upc, makes>>
Begin(o) == RunBegin(o) /\ runs' = [runs EXCEPT ![o] = @ + 1] /\ Keep
End(o) == (\E cut \in BOOLEAN : RunEnd(o, cut)) /\ (th[o].stop \/ runs[o] = 1) /\ Keep /\ UNCHANGED runs
UserMake(u) == /\ upc[u] = "ask" /\ Make(1) /\ upc' = [upc EXCEPT ![u] = "make"] /\ makes' = makes + 1
               /\ UNCHANGED <<pc, rounds, runs>>
UserMade(u) == upc[u] = "make" /\ Made(1) /\ upc' = [upc EXCEPT ![u] = "ask"] /\ UNCHANGED <<pc, rounds, runs, makes>>
UserGet(u) == upc[u] = "ask" /\ Get(1) /\ upc' = [upc EXCEPT ![u] = "has"] /\ UNCHANGED <<pc, rounds, runs, makes>>
ObjStep(o) == StartA(o) \/ StopA(o) \/ SkipStop(o) \/ JoinA(o) \/ DetachA(o)
RunStep(o) == Begin(o) \/ End(o)
UserStep(u) == UserMake(u) \/ UserMade(u) \/ UserGet(u)
Next == (\E o \in Objs : ObjStep(o) \/ RunStep(o)) \/ (\E u \in Users : UserStep(u))
Spec == Init /\ [][Next]_vars /\ (\A o \in Objs : WF_vars(ObjStep(o)) /\ WF_vars(RunStep(o)))
             /\ (\A u \in Users : WF_vars(UserStep(u)))
OncePerStart == \A o \in Objs : runs[o] \in {rounds[o], rounds[o] - 1}
OneInstance == makes <= 1
IdleIsGone == \A o \in Objs : pc[o] = "idle" => Gone(o) /\ runs[o] = rounds[o]
FreshFlag == \A o \in Objs : (pc[o] = "on" /\ th[o].st # "over") => ~th[o].stop
AllEnd == <>(\A o \in Objs : pc[o] = "idle" /\ rounds[o] = Rounds)
AllGet == <>(\A u \in Users : upc[u] = "has")
=============================================================================
