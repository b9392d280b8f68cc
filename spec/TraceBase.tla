----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: the recorded events and the cursor. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Mark == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
TraceAccepted == IF TLCGet(1) >= Len(Trace) THEN TRUE ELSE PrintT(<<"REJECT", TLCGet(1)>>) /\ FALSE
ASSUME TLCSet(1, 0)
=============================================================================
