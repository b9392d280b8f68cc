------------------------------ MODULE TraceShm ------------------------------
(* Recorded uses of CBitmap and CShmArray, judged by Shm. *)
EXTENDS Shm, TraceBase
vars == <<l, shmVars>>
TInit == l = 1 /\ ShmInit
TNext == \/ IsEvent("Reset") /\ seg' = << >> /\ hd' = << >>
         \/ IsEvent("Init") /\ Ev.h \notin DOMAIN hd
            /\ IF Ev.ok THEN CanOpen(Ev.key, Ev.w, Ev.n, Ev.create) /\ Open(Ev.h, Ev.key, Ev.w, Ev.n)
               ELSE (Ev.fault \/ ~CanOpen(Ev.key, Ev.w, Ev.n, Ev.create)) /\ UNCHANGED shmVars
         \/ IsEvent("Drop") /\ Drop(Ev.h)
         \/ IsEvent("Size") /\ Ev.h \in DOMAIN hd /\ (IF Ev.whole THEN Ev.v = seg[hd[Ev.h].key].n ELSE Ev.v = hd[Ev.h].n) /\ UNCHANGED shmVars
         \/ IsEvent("Get") /\ Ev.h \in DOMAIN hd /\ Get(Ev.h, Ev.i, Ev.v)
         \/ IsEvent("Set") /\ Ev.h \in DOMAIN hd /\ Set(Ev.h, Ev.i, Ev.v, Ev.ok)
         \/ IsEvent("Clear") /\ Ev.h \in DOMAIN hd /\ Clear(Ev.h)
         \/ IsEvent("End") /\ UNCHANGED shmVars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
