------------------------------- MODULE MCNet -------------------------------
(* Comm with several workers: who serves a connection, taking turns, the descriptor limit, timers and messages of each
   worker. Bytes and writes are the business of MCComm; here a package is one byte.                                  *)
EXTENDS Comm, TLC
CONSTANTS NW, Conns, Max, Timers, Msgs
VARIABLES serve,  \* connection -> the workers that ever called back for it
          order,  \* accepted connections, in order
          cut,    \* connections that were refused
          now, fired, deliv
mcVars == <<cfg, con, rej, accerr, tim, msg, udp, calls, rota, serve, order, cut, now, fired, deliv>>
Ths == 1..NW
Init == /\ cfg = [max |-> Max, fdcap |-> 99, srv |-> <<[type |-> "tcp", pkg |-> "h2s", mr |-> 2, ms |-> 1, removed |-> FALSE]>>]
        /\ con = [c \in Conns |-> Fresh] /\ rej = 0 /\ accerr = 0 /\ tim = {} /\ msg = {} /\ udp = <<>>
        /\ calls = [t \in 0..NW |-> <<>>] /\ rota = [n |-> NW, off |-> -1, acc |-> 0]
        /\ serve = [c \in Conns |-> {}] /\ order = <<>> /\ cut = {} /\ now = 0 /\ fired = <<>> /\ deliv = <<>>
Used == {c \in Conns : con[c].st \in {"open", "rej"}}
Free(fd) == \A c \in Used : ~(\E i \in DOMAIN order : order[i].c = c /\ order[i].fd = fd)
By(t, c) == serve' = [serve EXCEPT ![c] = @ \cup {t}]
Next ==
  \/ \E c \in Conns, fd \in 1..3 : /\ Free(fd) /\ (\A g \in 1..(fd - 1) : ~Free(g)) /\ Accept(c, 1, 0, fd) /\ order' = Append(order, [c |-> c, fd |-> fd])
                                   /\ cut' = IF con'[c].st = "rej" THEN cut \cup {c} ELSE cut
                                   /\ UNCHANGED <<serve, now, fired, deliv>>
  \/ \E t \in 0..NW, c \in Conns : OnConnectIn(t, c) /\ By(t, c) /\ UNCHANGED <<order, cut, now, fired, deliv>>
  \/ \E c \in Conns : /\ con[c].st \in {"open"} /\ con[c].inq = <<>> /\ con[c].peer = "ok" /\ PeerSends(c, <<[t |-> 1, n |-> 1, bad |-> 0]>>)
                      /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E c \in Conns : con[c].inq # <<>> /\ con[c].got = 0 /\ Recv(c, 1) /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E c \in Conns : con[c].st = "open" /\ con[c].peer = "ok" /\ PeerGone(c, "rst") /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E t \in 0..NW, c \in Conns : OnRead(t, c, <<<<1, 0, 1>>>>) /\ By(t, c) /\ UNCHANGED <<order, cut, now, fired, deliv>>
  \/ \E t \in 0..NW, c \in Conns : (OnClose(t, c) \/ OnError(t, c, 1)) /\ By(t, c) /\ UNCHANGED <<order, cut, now, fired, deliv>>
  \/ \E c \in Conns : SockClose(c) /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ OnTooMany /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E t \in Ths, k \in 1..Timers : /\ \A x \in tim : x.id # k \/ x.w # t
                                     /\ \A i \in DOMAIN fired : fired[i].w # t \/ fired[i].id # k
                                     /\ AddTimer(t, k, now + (k % 2), k) /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E t \in 0..NW, k \in 1..Timers : OnTimer(t, k, k, now) /\ fired' = Append(fired, [w |-> t, id |-> k]) /\ UNCHANGED <<serve, order, cut, now, deliv>>
  \/ now < 1 /\ now' = now + 1 /\ UNCHANGED <<commVars, serve, order, cut, fired, deliv>>
  \/ \E t \in Ths, k \in 1..Msgs : /\ \A i \in DOMAIN deliv : deliv[i].id # k
                                   /\ MsgCall(t, k, 1) /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E m \in msg : ~m.ret /\ MsgRet(m.id, 0) /\ UNCHANGED <<serve, order, cut, now, fired, deliv>>
  \/ \E t \in 0..NW, m \in msg : OnMessage(t, m.id, 1) /\ deliv' = Append(deliv, [w |-> t, id |-> m.id, to |-> m.w]) /\ UNCHANGED <<serve, order, cut, now, fired>>
Spec == Init /\ [][Next]_mcVars
\* one worker serves a connection for its whole life, and never the accepting thread
OneWorker == \A c \in Conns : Cardinality(serve[c]) <= 1 /\ 0 \notin serve[c]
\* two connections accepted one after the other (refused ones left out) go to neighbours in the round
Taken == SelectSeq(order, LAMBDA o : o.c \notin cut)
InTurn == \A i \in 1..(Len(Taken) - 1) :
             \A a \in serve[Taken[i].c], b \in serve[Taken[i + 1].c] : b = (a % NW) + 1
NoServiceForRefused == \A c \in cut : serve[c] = {}
Limit == Cardinality({c \in Conns : con[c].st = "open"}) <= Max
TimersOfTheirWorker == \A i \in DOMAIN fired : fired[i].w \in Ths
MsgsOfTheirWorker == \A i \in DOMAIN deliv : deliv[i].w = deliv[i].to
=============================================================================
