-------------------------------- MODULE Sync --------------------------------
(* Mutexes, spin locks, a read-write lock and conditions, as their callers see them. *)
EXTENDS Integers, FiniteSets
VARIABLES own,      \* lock -> the thread holding it, or -1
          wr, rd,   \* the read-write lock: its writer or -1, the set of its readers
          ws,       \* thread -> what it waits for: condition, mutex to come back with, deadline (-1: none)
          now       \* microseconds
syncVars == <<own, wr, rd, ws, now>>
NoWait == [st |-> "no", c |-> 0, m |-> 0, dl |-> -1]
SyncInit(T, L) == own = [k \in L |-> -1] /\ wr = -1 /\ rd = {} /\ ws = [t \in T |-> NoWait] /\ now = 0

CanLock(k) == own[k] = -1
Lock(t, k) == CanLock(k) /\ own' = [own EXCEPT ![k] = t] /\ UNCHANGED <<wr, rd, ws, now>>
TryFails(k) == ~CanLock(k) /\ UNCHANGED syncVars
Unlock(t, k) == own[k] = t /\ own' = [own EXCEPT ![k] = -1] /\ UNCHANGED <<wr, rd, ws, now>>

CanRead == wr = -1
CanWrite == wr = -1 /\ rd = {}
ReadLock(t) == CanRead /\ rd' = rd \cup {t} /\ UNCHANGED <<own, wr, ws, now>>
WriteLock(t) == CanWrite /\ wr' = t /\ UNCHANGED <<own, rd, ws, now>>
TryReadFails == ~CanRead /\ UNCHANGED syncVars
TryWriteFails == ~CanWrite /\ UNCHANGED syncVars
RwUnlock(t) == /\ wr = t \/ t \in rd
               /\ IF wr = t THEN wr' = -1 /\ rd' = rd ELSE rd' = rd \ {t} /\ wr' = wr
               /\ UNCHANGED <<own, ws, now>>

\* waiting gives the mutex up and enters the condition in one step
WaitEnter(t, c, m, dl) == /\ own[m] = t /\ ws[t].st = "no"
                          /\ own' = [own EXCEPT ![m] = -1]
                          /\ ws' = [ws EXCEPT ![t] = [st |-> "wait", c |-> c, m |-> m, dl |-> dl]]
                          /\ UNCHANGED <<wr, rd, now>>
Waiters(c) == {t \in DOMAIN ws : ws[t].st = "wait" /\ ws[t].c = c}
Wake(S) == ws' = [t \in DOMAIN ws |-> IF t \in S THEN [ws[t] EXCEPT !.st = "woken"] ELSE ws[t]]
           /\ UNCHANGED <<own, wr, rd, now>>
Signal(c) == IF Waiters(c) = {} THEN UNCHANGED syncVars
             ELSE \E S \in SUBSET Waiters(c) : S # {} /\ Wake(S)
Broadcast(c) == Wake(Waiters(c))
Spurious(t) == ws[t].st = "wait" /\ Wake({t})
Expired(t) == ws[t].dl >= 0 /\ now >= ws[t].dl
TimeOut(t) == /\ ws[t].st = "wait" /\ Expired(t)
              /\ ws' = [ws EXCEPT ![t].st = "timeout"] /\ UNCHANGED <<own, wr, rd, now>>
\* and comes back holding it
WaitLeave(t, ok) == /\ ws[t].st = (IF ok THEN "woken" ELSE "timeout")
                    /\ CanLock(ws[t].m)
                    /\ own' = [own EXCEPT ![ws[t].m] = t]
                    /\ ws' = [ws EXCEPT ![t] = NoWait]
                    /\ UNCHANGED <<wr, rd, now>>
WaitBlocked(t) == \/ ws[t].st = "wait" /\ ~Expired(t)
                  \/ ws[t].st \in {"woken", "timeout"} /\ ~CanLock(ws[t].m)
Exclusive == wr # -1 => rd = {}
=============================================================================
