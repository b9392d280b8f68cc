----------------------------- MODULE TracePool -----------------------------
EXTENDS Pool, TraceBase
VARIABLE threw     \* threads that still owe the error handler a word
vars == <<poolVars, l, threw>>
TInit == PoolInit(1, 1, TRUE, {}) /\ l = 1 /\ threw = {}
Reset == /\ IsEvent("Reset") /\ max' = Ev.max /\ q' = <<>> /\ work' = [w \in 0..Ev.n-1 |-> None] /\ phase' = "new"
         /\ con' = [c \in 1..Ev.nc |-> NoCon] /\ req' = <<>> /\ rd' = NoRd /\ out' = [w \in 0..Ev.n-1 |-> <<>>]
         /\ told' = (Ev.told = 1) /\ threw' = {}
U == UNCHANGED threw
Hidden == /\ l <= Len(Trace) /\ UNCHANGED l /\ U
          /\ \/ Offer /\ Ev.e \in {"Err", "ReadRet", "Work"}
             \/ Undecodable /\ ~told /\ Ev.e = "SockClose"
             \/ (\E w \in DOMAIN work : TakeIt(w)) /\ Ev.e \in {"Err", "ReadRet", "Work", "Quiet"}
             \/ SentEmpty /\ Ev.e \in {"SockClose", "Quiet", "Sent"}
TNext ==
  \/ Reset \/ Hidden
  \/ IsEvent("Run") /\ Run /\ UNCHANGED <<con, req, rd, out, told, threw>>
  \/ IsEvent("Accept") /\ Join(Ev.c) /\ U
  \/ IsEvent("Ask") /\ Ask(Ev.c, Ev.id, Ev.good) /\ U
  \/ IsEvent("Gone") /\ Leave(Ev.c) /\ U
  \/ IsEvent("Read") /\ Ev.same = 1 /\ Read(Ev.c, Ev.id) /\ U
  \/ IsEvent("ReadRet") /\ ReadRet /\ U
  \/ IsEvent("Err") /\ told /\ Ev.what = "full" /\ Ev.reactor = 1 /\ RefusedTold /\ U
  \/ IsEvent("Err") /\ told /\ Ev.what = "other" /\ Ev.reactor = 1 /\ Undecodable /\ U
  \/ IsEvent("Err") /\ told /\ Ev.what = "boom" /\ Ev.reactor = 0 /\ Ev.t \in threw /\ threw' = threw \ {Ev.t} /\ UNCHANGED poolVars
  \/ IsEvent("Work") /\ Ev.w \in DOMAIN work /\ Ev.same = 1 /\ Ev.t \notin threw /\ Work(Ev.w, Ev.id) /\ U
  \/ IsEvent("Answer") /\ Answer(Ev.w, Ev.id, Ev.n, Ev.close = 1) /\ U
  \/ IsEvent("Throw") /\ Throw(Ev.w, Ev.id) /\ threw' = IF told THEN threw \cup {Ev.t} ELSE threw
  \/ IsEvent("Sent") /\ Sent(Ev.c, Ev.id) /\ U
  \/ IsEvent("SockClose") /\ SockClose(Ev.c) /\ U
  \/ IsEvent("Quiet") /\ CalmOk /\ threw = {} /\ Ev.part = 0 /\ UNCHANGED <<poolVars, threw>>
  \* everything is over: what the pool still holds does not grow with what went through it
  \/ IsEvent("End") /\ q = <<>> /\ Ev.held <= 400000 /\ UNCHANGED <<poolVars, threw>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
