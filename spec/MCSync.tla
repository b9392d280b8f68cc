------------------------------- MODULE MCSync -------------------------------
(* A monitor written with the primitives: producers put items, consumers wait for them; others use the read-write lock.
   The guarantees of Sync are enough for it: exclusion, nobody sleeps through a signal, no deadlock. *)
EXTENDS Sync, Sequences, TLC
CONSTANTS Prod, Cons, Rw, MaxNow
VARIABLES pc, items, got, inmon
vars == <<own, wr, rd, ws, now, pc, items, got, inmon>>
T == Prod \cup Cons \cup Rw
Init == SyncInit(T, {1}) /\ pc = [t \in T |-> "start"] /\ items = 0 /\ got = [t \in Cons |-> 0] /\ inmon = {}
Keep == UNCHANGED <<items, got>>
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
\* producer: lock; put; unlock; signal
P1(t) == Go(t, "start", "in") /\ Lock(t, 1) /\ inmon' = inmon \cup {t} /\ Keep
P2(t) == Go(t, "in", "put") /\ items' = items + 1 /\ UNCHANGED <<own, wr, rd, ws, now, got, inmon>>
P3(t) == Go(t, "put", "out") /\ Unlock(t, 1) /\ inmon' = inmon \ {t} /\ Keep
P4(t) == Go(t, "out", "end") /\ Signal(1) /\ UNCHANGED inmon /\ Keep
\* consumer: lock; while empty wait (with or without a deadline); take; unlock
C1(t) == Go(t, "start", "in") /\ Lock(t, 1) /\ inmon' = inmon \cup {t} /\ Keep
C2(t) == /\ Go(t, "in", "wait") /\ items = 0 /\ inmon' = inmon \ {t} /\ Keep
         /\ \E d \in (IF now < MaxNow THEN {-1, now + 1} ELSE {-1}) : WaitEnter(t, 1, 1, d)
C3(t) == Go(t, "wait", "in") /\ (\E ok \in BOOLEAN : WaitLeave(t, ok)) /\ inmon' = inmon \cup {t} /\ Keep
C4(t) == /\ Go(t, "in", "took") /\ items > 0 /\ items' = items - 1 /\ got' = [got EXCEPT ![t] = @ + 1]
         /\ UNCHANGED <<own, wr, rd, ws, now, inmon>>
C5(t) == Go(t, "took", "end") /\ Unlock(t, 1) /\ inmon' = inmon \ {t} /\ Keep
R1(t) == Go(t, "start", "in") /\ (ReadLock(t) \/ WriteLock(t)) /\ UNCHANGED inmon /\ Keep
R2(t) == Go(t, "in", "end") /\ RwUnlock(t) /\ UNCHANGED inmon /\ Keep
Move(t) == P1(t) \/ P2(t) \/ P3(t) \/ P4(t)
TimeOut_(t) == TimeOut(t) /\ UNCHANGED <<pc, items, got, inmon>>
MoveC(t) == C1(t) \/ C2(t) \/ C3(t) \/ C4(t) \/ C5(t) \/ TimeOut_(t)
SpurA(t) == Spurious(t) /\ UNCHANGED <<pc, items, got, inmon>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<own, wr, rd, ws, pc, items, got, inmon>>
Next == \/ \E t \in Prod : Move(t)
        \/ \E t \in Cons : MoveC(t) \/ (Cardinality(Cons) < 3 /\ SpurA(t))
        \/ \E t \in Rw : R1(t) \/ R2(t)
        \/ Tick
Spec == Init /\ [][Next]_vars /\ (\A p \in Prod : SF_vars(Move(p)))
             /\ (\A t \in Cons : SF_vars(C1(t)) /\ SF_vars(C3(t)) /\ WF_vars(C2(t)) /\ WF_vars(C4(t)) /\ WF_vars(C5(t)) /\ WF_vars(TimeOut_(t)))
             /\ (\A r \in Rw : SF_vars(R1(r)) /\ WF_vars(R2(r)))
             /\ WF_vars(Tick)
\* whoever is inside holds the mutex, and is alone
InMonitor == Cardinality(inmon) <= 1 /\ \A t \in inmon : own[1] = t
RwExclusive == \A t, u \in Rw : (t # u /\ wr = t) => u \notin rd
AllServed == <>[](\A t \in Cons : pc[t] = "end")
RwServed == <>[](\A t \in Rw : pc[t] = "end")
NoSleepers == [](items > 0 /\ (\A t \in Prod : pc[t] = "end") => \E t \in Cons : ws[t].st # "wait" /\ pc[t] # "end")
=============================================================================
