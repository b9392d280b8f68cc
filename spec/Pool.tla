-------------------------------- MODULE Pool --------------------------------
(* A worker pool between the reactor and the worker threads: requests read from connections are queued,
   worked on and answered to the session that asked. *)
EXTENDS Task
VARIABLES con,     \* c -> [st, left, due]: what the code knows, whether the peer left, requests not read yet
          req,     \* id -> [c, good]
          rd,      \* the request the reactor is handing over: [id, st]
          out,     \* w -> answers that have not reached the reactor's socket yet: [id, n, close]
          told     \* is there an error handler
poolVars == <<max, q, work, phase, con, req, rd, out, told>>
NoRd == [id |-> 0, st |-> "none"]
NoCon == [st |-> "none", left |-> FALSE, due |-> <<>>]
PoolInit(m, n, t, C) == TaskInit(m, n) /\ con = [c \in C |-> NoCon] /\ req = <<>> /\ rd = NoRd
                        /\ out = [w \in 0..n-1 |-> <<>>] /\ told = t
Tasks == <<max, q, work, phase>>
SetC(c, r) == con' = [con EXCEPT ![c] = r]
\* ---- the network
Join(c) == con[c].st = "none" /\ SetC(c, [con[c] EXCEPT !.st = "open"]) /\ UNCHANGED <<Tasks, req, rd, out, told>>
\* good: "yes", "no" (cannot be decoded)
Ask(c, id, good) == /\ id = Len(req) + 1 /\ req' = Append(req, [c |-> c, good |-> good])
                    /\ SetC(c, [con[c] EXCEPT !.due = Append(@, id)]) /\ UNCHANGED <<Tasks, rd, out, told>>
Leave(c) == SetC(c, [con[c] EXCEPT !.left = TRUE]) /\ UNCHANGED <<Tasks, req, rd, out, told>>
\* ---- the reactor hands a request over
Read(c, id) == /\ rd = NoRd /\ con[c].st \in {"open", "closing"} /\ con[c].due # <<>> /\ Head(con[c].due) = id
               /\ SetC(c, [con[c] EXCEPT !.due = Tail(@)]) /\ rd' = [id |-> id, st |-> "read"]
               /\ UNCHANGED <<Tasks, req, out, told>>
\* (inside) queued or refused
Offer == /\ rd.st = "read" /\ req[rd.id].good = "yes"
         /\ \E ok \in BOOLEAN : Dispatch(rd.id, ok) /\ rd' = [rd EXCEPT !.st = IF ok \/ ~told THEN "done" ELSE "full"]
         /\ UNCHANGED <<con, req, out, told>>
RefusedTold == rd.st = "full" /\ rd' = [rd EXCEPT !.st = "done"] /\ UNCHANGED <<Tasks, con, req, out, told>>
\* one that cannot be decoded costs the connection
Undecodable == /\ rd.st = "read" /\ req[rd.id].good = "no"
               /\ rd' = [rd EXCEPT !.st = "done"]
               /\ LET c == req[rd.id].c IN SetC(c, [con[c] EXCEPT !.st = IF @ = "open" THEN "closing" ELSE @])
               /\ UNCHANGED <<Tasks, req, out, told>>
ReadRet == rd.st = "done" /\ rd' = NoRd /\ UNCHANGED <<Tasks, con, req, out, told>>
\* ---- the workers
TakeIt(w) == Take(w) /\ UNCHANGED <<con, req, rd, out, told>>
Work(w, id) == Begin(w, id) /\ UNCHANGED <<con, req, rd, out, told>>
Answer(w, id, n, close) == /\ Done(w, id) /\ out' = [out EXCEPT ![w] = Append(@, [id |-> id, n |-> n, close |-> close])]
                           /\ UNCHANGED <<con, req, rd, told>>
\* the handler threw: no answer, the error handler hears of it, and the worker goes on
Throw(w, id) == Done(w, id) /\ UNCHANGED <<con, req, rd, out, told>>
\* ---- answers reach the socket; those of one worker to one connection in their order. After an answer that asks
\* for closing more may still follow (while it is on its way), or not
Reach(x) == con[req[x.id].c].st = "open"
May(x) == con[req[x.id].c].st \in {"open", "closing"}
Firsts(w, c) == {i \in DOMAIN out[w] : req[out[w][i].id].c = c /\ May(out[w][i])
                                       /\ \A j \in 1..i-1 : req[out[w][j].id].c = c => ~Reach(out[w][j])}
Deliver(w, i) == /\ out' = [out EXCEPT ![w] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                 /\ LET x == out[w][i] c == req[x.id].c IN
                    SetC(c, [con[c] EXCEPT !.st = IF x.close THEN "closing" ELSE @])
                 /\ UNCHANGED <<Tasks, req, rd, told>>
Sent(c, id) == \E w \in DOMAIN out : \E i \in Firsts(w, c) : out[w][i].id = id /\ out[w][i].n > 0 /\ Deliver(w, i)
SentEmpty == \E w \in DOMAIN out : \E c \in DOMAIN con : \E i \in Firsts(w, c) : out[w][i].n = 0 /\ Deliver(w, i)
\* the code closes a connection: asked to, or the peer left
SockClose(c) == /\ con[c].st = "closing" \/ (con[c].st = "open" /\ con[c].left)
                /\ SetC(c, [con[c] EXCEPT !.st = "closed"]) /\ UNCHANGED <<Tasks, req, rd, out, told>>
\* ---- nobody can do anything
CalmOk == /\ QuietOk /\ rd = NoRd
          /\ \A c \in DOMAIN con : con[c].st # "closing" /\ (con[c].st = "open" => ~con[c].left /\ con[c].due = <<>>)
          /\ \A w \in DOMAIN out : \A i \in DOMAIN out[w] : ~Reach(out[w][i])
=============================================================================
