------------------------------ MODULE TracePkg ------------------------------
(* Recorded uses of CPackage, judged by Pkg. *)
EXTENDS Pkg, TraceBase
VARIABLE ps
vars == <<l, ps>>
P == ps[Ev.h]
Upd(q) == ps' = [ps EXCEPT ![Ev.h] = q]
Res(r) == IF r.ok THEN Ev.ok /\ Ev.v = r.v /\ Upd(r.p) ELSE ~Ev.ok /\ UNCHANGED ps
TInit == l = 1 /\ ps = <<>>
TNext == \/ IsEvent("Reset") /\ ps' = <<New(Ev.h), New(Ev.h)>>
         \/ IsEvent("Data") /\ LET h == Len(P.head) IN IF Len(Ev.b) < h THEN ~Ev.ok /\ UNCHANGED ps ELSE Ev.ok /\ Upd(OfBytes(h, Ev.b))
         \/ IsEvent("Write") /\ Upd(Append2(P, Ev.b)) /\ (Ev.at >= 0 => Ev.at = Len(Bytes(P)))
         \/ IsEvent("Over") /\ Upd(Over(P, Ev.i, Ev.b))
         \/ IsEvent("Read") /\ Res(Read(P, Ev.n))
         \/ IsEvent("Str") /\ Res(IF Ev.n = 0 THEN Str(P) ELSE Prefixed(P, Ev.n))
         \/ IsEvent("IsEnd") /\ Ev.v = (Len(P.body) < P.pos + Ev.n) /\ UNCHANGED ps
         \/ IsEvent("Seek") /\ (IF Ev.ok THEN SeekOk(P, Ev.off, Ev.dir) /\ Upd([P EXCEPT !.pos = Target(P, Ev.off, Ev.dir)])
                                ELSE ~SeekMust(P, Ev.off, Ev.dir) /\ UNCHANGED ps)
         \/ IsEvent("Clear") /\ Upd(New(Len(P.head)))
         \/ IsEvent("ClearBody") /\ Upd([P EXCEPT !.body = <<>>, !.pos = 0])
         \/ IsEvent("Body") /\ Upd([P EXCEPT !.body = Ev.b])
         \/ IsEvent("Head") /\ Upd([P EXCEPT !.head = Ev.b])
         \/ IsEvent("Copy") /\ ps' = [ps EXCEPT ![Ev.h] = ps[3 - Ev.h]]
         \/ IsEvent("Dump") /\ Ev.b = Bytes(P) /\ Ev.len = Len(Bytes(P)) /\ Ev.blen = Len(P.body) /\ Ev.body = P.body /\ Ev.head = P.head /\ UNCHANGED ps
         \/ IsEvent("End") /\ UNCHANGED ps
TSpec == TInit /\ [][TNext]_vars
=============================================================================
