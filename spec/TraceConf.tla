------------------------------ MODULE TraceConf ------------------------------
(* Recorded uses of CConfig, judged by Conf. Texts are bytes; numbers are given as decimal texts. *)
EXTENDS Conf, TraceBase
VARIABLE vals
vars == <<l, vals>>
K == <<Ev.app, Ev.name>>
Val == Get(vals, K, <<>>)
TInit == l = 1 /\ vals = <<>>
TNext == \/ IsEvent("Reset") /\ vals' = <<>>
         \/ IsEvent("Load") /\ (IF Ev.there THEN Ev.ok /\ vals' = Load(vals, Ev.text) ELSE ~Ev.ok /\ UNCHANGED vals)
         \/ IsEvent("Str") /\ Ev.v = Get(vals, K, Ev.d) /\ Ev.r = Ev.v /\ UNCHANGED vals
         \* num: the value is known to the driver as a number in the range of the type
         \/ IsEvent("Num") /\ Ev.r = Ev.v /\ (IF ~Known(vals, K) THEN Ev.v = Ev.d ELSE Ev.num => IsNum(Val) /\ Ev.v = Canon(Val)) /\ UNCHANGED vals
         \/ IsEvent("Bool") /\ Ev.r = Ev.v /\ (IF ~Known(vals, K) THEN Ev.v = Ev.d ELSE Ev.num => IsNum(Val) /\ Ev.v = (Canon(Val) # <<48>>)) /\ UNCHANGED vals
         \/ IsEvent("Addr") /\ (IF ~Known(vals, K) THEN ~Ev.ok /\ Ev.ip = Ev.dip /\ Ev.port = Ev.dport
                                ELSE AddrOk(Val) => Ev.ok /\ Ev.ip = Addr(Val).ip /\ Ev.port = Addr(Val).port) /\ UNCHANGED vals
         \/ IsEvent("List") /\ (IF ~Known(vals, K) THEN ~Ev.ok /\ Ev.list = <<[ip |-> Ev.dip, port |-> Ev.dport]>>
                                ELSE LET all == Split(Val, <<124>>) q == SelectSeq(all, LAMBDA x : Find(x, <<58>>, 1) > 0) IN
                                     \* an entry without a port is left out
                                     (q # <<>> /\ \A i \in DOMAIN q : AddrOk(q[i])) => Ev.ok /\ Len(Ev.list) = Len(q) /\ \A i \in DOMAIN q : Ev.list[i] = Addr(q[i])) /\ UNCHANGED vals
         \/ IsEvent("End") /\ UNCHANGED vals
TSpec == TInit /\ [][TNext]_vars
=============================================================================
