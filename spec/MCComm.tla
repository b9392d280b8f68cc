------------------------------- MODULE MCComm -------------------------------
(* Comm with a small world: incoming connections on one server, outgoing ones on another, short packages, ghost
   histories. Checked: what the user relies on follows from the actions that traces are bound to.                 *)
EXTENDS Comm, TLC
CONSTANTS Size, Rm, In, Out, MaxClients, Pkgs, Writes, Timers, Msgs
VARIABLES sentp, read, wrote, took, reps, cbs, now, fired, deliv
mcVars == <<cfg, con, rej, accerr, tim, msg, udp, calls, rota, sentp, read, wrote, took, reps, cbs, now, fired, deliv>>
ghosts == <<sentp, read, wrote, took, reps, cbs, now, fired, deliv>>
All == In \cup Out
SrvT == [type |-> "tcp", pkg |-> "h2s", mr |-> 2, ms |-> 1, removed |-> FALSE]
SrvC == [type |-> "conn", pkg |-> "h2s", mr |-> 2, ms |-> 1, removed |-> FALSE]
Init == /\ cfg = [max |-> MaxClients, fdcap |-> 99, srv |-> <<SrvT, SrvC>>]
        /\ con = [c \in All |-> Fresh] /\ rej = 0 /\ accerr = 0 /\ tim = {} /\ msg = {} /\ udp = <<>>
        /\ calls = [t \in {0} |-> <<>>] /\ rota = [n |-> 0, off |-> -1, acc |-> 0]
        /\ sentp = [c \in All |-> <<>>] /\ read = [c \in All |-> <<>>]
        /\ wrote = [c \in All |-> <<>>] /\ took = [c \in All |-> <<>>]
        /\ reps = [c \in All |-> 0] /\ cbs = [c \in All |-> "none"] /\ now = 0 /\ fired = {} /\ deliv = <<>>
AllSizes == {[n |-> 1, bad |-> 0], [n |-> 2, bad |-> 0], [n |-> 3, bad |-> 0], [n |-> 2, bad |-> 1]}
Few == {[n |-> 1, bad |-> 0], [n |-> 2, bad |-> 1]}
Byte(c, k) == <<<<c * 10 + k, 0, 1>>>>
G(vs) == UNCHANGED vs
World ==
  \/ \E c \in In : Accept(c, 1, 0, c) /\ G(ghosts)
  \/ \E c \in All, z \in Size :
        /\ Len(sentp[c]) < Pkgs /\ con[c].peer = "ok" /\ con[c].st # "none" /\ con[c].est \in {"", "ok"}
        /\ LET p == [t |-> Len(sentp[c]) + 1, n |-> z.n, bad |-> z.bad] IN
           PeerSends(c, <<p>>) /\ sentp' = [sentp EXCEPT ![c] = Append(@, p)]
        /\ G(<<read, wrote, took, reps, cbs, now, fired, deliv>>)
  \/ \E c \in All, h \in {"fin", "rst"} : con[c].st # "none" /\ con[c].peer = "ok" /\ PeerGone(c, h) /\ G(ghosts)
  \/ \E c \in All : /\ Open(c) /\ ~con[c].eof /\ ~con[c].rfail
                    /\ LET tot == LET RECURSIVE S(_) S(q) == IF q = <<>> THEN 0 ELSE Head(q).n + S(Tail(q)) IN S(con[c].inq) IN
                       \E n \in 1..(tot - con[c].got) : Recv(c, n)
                    /\ G(ghosts)
  \/ \E c \in All : /\ Open(c) /\ con[c].peer = "fin" /\ ~con[c].eof /\ Recv(c, 0) /\ G(ghosts)
  \/ \E c \in All : /\ Open(c) /\ con[c].peer = "rst" /\ ~con[c].rfail /\ RecvFails(c, "gone") /\ G(ghosts)
  \/ \E c \in All : /\ Open(c) /\ con[c].out # <<>> /\ con[c].peer = "ok"
                    /\ Sent(c, <<Head(con[c].out)>>) /\ took' = [took EXCEPT ![c] = Append(@, Head(con[c].out))]
                    /\ G(<<sentp, read, wrote, reps, cbs, now, fired, deliv>>)
  \/ \E c \in Out : (\/ Socket(0, c) \/ (con[c].est = "" /\ \E r \in {"now", "progress", "fail"} : Connecting(0, c, r))
                     \/ (NoCalls /\ \E ok \in BOOLEAN : Established(c, ok))) /\ G(ghosts)
  \/ now < 2 /\ now' = now + 1 /\ UNCHANGED <<commVars, sentp, read, wrote, took, reps, cbs, fired, deliv>>
Idle == NoCalls \/ Top(0).op \in {"write", "close", "connect"}
Cb(c, k) == cbs' = [cbs EXCEPT ![c] = k]
Callbacks ==
  /\ NoCalls
  /\ \/ \E c \in In : OnConnectIn(0, c) /\ Cb(c, "up") /\ G(<<sentp, read, wrote, took, reps, now, fired, deliv>>)
     \/ \E c \in Out, ok \in BOOLEAN : /\ OnConnectOut(0, c, ok, 7) /\ Cb(c, IF ok THEN "up" ELSE "end")
                                       /\ reps' = IF ok THEN reps ELSE [reps EXCEPT ![c] = @ + 1]
                                       /\ G(<<sentp, read, wrote, took, now, fired, deliv>>)
     \/ \E c \in All : /\ con[c].inq # <<>> /\ LET h == Head(con[c].inq) IN
                          OnRead(0, c, <<<<h.t, 0, h.n>>>>) /\ read' = [read EXCEPT ![c] = Append(@, h)]
                       /\ Cb(c, "read") /\ G(<<sentp, wrote, took, reps, now, fired, deliv>>)
     \/ \E c \in All : /\ (OnClose(0, c) \/ OnError(0, c, 1) \/ OnError(0, c, 2) \/ OnError(0, c, 4))
                       /\ Cb(c, "end") /\ reps' = [reps EXCEPT ![c] = @ + 1]
                       /\ G(<<sentp, read, wrote, took, now, fired, deliv>>)
     \/ OnTooMany /\ G(ghosts)
     \/ \E t \in tim : /\ OnTimer(0, t.id, t.data, now) /\ fired' = fired \cup {<<t.id, t.at, now>>}
                       /\ G(<<sentp, read, wrote, took, reps, cbs, now, deliv>>)
     \/ \E m \in msg : OnMessage(0, m.id, 1) /\ deliv' = Append(deliv, m.id) /\ G(<<sentp, read, wrote, took, reps, cbs, now, fired>>)
Application ==
  \/ \E c \in All, cl \in BOOLEAN :
        /\ NoCalls /\ Len(wrote[c]) < Writes /\ con[c].up
        /\ WriteCall(0, c, Byte(c, Len(wrote[c]) + 1), cl) /\ wrote' = [wrote EXCEPT ![c] = Append(@, [n |-> Len(wrote[c]) + 1, ok |-> TRUE])]
        /\ G(<<sentp, read, took, reps, cbs, now, fired, deliv>>)
  \/ \E r \in {0, -1} : /\ WriteRet(0, r)
                        /\ wrote' = IF r = 0 THEN wrote ELSE [wrote EXCEPT ![Top(0).c][Len(wrote[Top(0).c])].ok = FALSE]
                        /\ G(<<sentp, read, took, reps, cbs, now, fired, deliv>>)
  \/ \E c \in All : NoCalls /\ con[c].up /\ Open(c) /\ CloseCall(0, c) /\ Cb(c, "closed") /\ G(<<sentp, read, wrote, took, reps, now, fired, deliv>>)
  \/ CloseRet(0) /\ G(ghosts)
  \/ NoCalls /\ (\E c \in Out : con[c].st = "none") /\ ConnectCall(0, 2, 0, 7) /\ G(ghosts)
  \/ \E c \in Out \cup {0} : ~NoCalls /\ Top(0).op = "connect" /\ (c > 0 => c = Top(0).c) /\ ConnectRet(0, c) /\ G(ghosts)
  \/ NoCalls /\ Rm /\ ~cfg.srv[1].removed /\ RmSrvCall(0, 1) /\ G(ghosts)
  \/ RmSrvRet(0) /\ G(ghosts)
  \/ NoCalls /\ \E k \in 1..Timers : (\A f \in fired : f[1] # k) /\ (\A t \in tim : t.id # k) /\ AddTimer(0, k, now + (k % 2), k) /\ G(ghosts)
  \/ NoCalls /\ \E k \in 1..Timers : (\E t \in tim : t.id = k) /\ DelTimer(0, k) /\ G(ghosts)
  \/ \E k \in 1..Msgs : (\A i \in DOMAIN deliv : deliv[i] # k) /\ (k > 1 => (\E m \in msg : m.id = k - 1 /\ m.ret) \/ \E i \in DOMAIN deliv : deliv[i] = k - 1)
                        /\ MsgCall(0, k, 1) /\ G(ghosts)
  \/ \E m \in msg : ~m.ret /\ MsgRet(m.id, 0) /\ G(ghosts)
Closing == \E c \in All : SockClose(c) /\ G(ghosts)
Next == World \/ Callbacks \/ Application \/ Closing
Spec == Init /\ [][Next]_mcVars

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* packages come once, whole, in order, and only well-formed ones that fit
InOrder == \A c \in All : Prefix(read[c], sentp[c]) /\ \A i \in DOMAIN read[c] : read[c][i].bad = 0 /\ read[c][i].n <= 2
\* what the peer takes is what was written, in order, nothing of a refused write after one that was taken
OutOrder == \A c \in All : /\ \A i \in DOMAIN took[c] : \E w \in DOMAIN wrote[c] : took[c][i][1] = c * 10 + w
                           /\ \A i, j \in DOMAIN took[c] : i < j => took[c][i][1] < took[c][j][1]
OneReport == \A c \in All : reps[c] <= 1
\* while the connection is open, what was accepted and not taken is still going to be sent
NothingLost == \A c \in All : Open(c) /\ NoCalls =>
                 \A w \in DOMAIN wrote[c] : wrote[c][w].ok =>
                    (\E i \in DOMAIN took[c] : took[c][i][1] = c * 10 + w) \/ (\E i \in DOMAIN con[c].out : con[c].out[i][1] = c * 10 + w)
                    \/ con[c].peer # "ok"
Limit == Clients <= cfg.max
Early == \A f \in fired : f[3] >= f[2]
MsgOrder == \A i, j \in DOMAIN deliv : i < j => deliv[i] < deliv[j]
Quiet == QuietOk({c \in All : FALSE}, {}, 0, now)
\* when the specification calls the system quiet, no package that has arrived is waiting and every end was reported
QuietMeans == Quiet => \A c \in All :
                 /\ con[c].st = "open" => ~Complete(c) /\ ~Broken(c)
                 /\ con[c].st = "closed" => reps[c] = 1 \/ cbs[c] = "closed" \/ con[c].est = "now" \/ wrote[c] # <<>> \/ Removed(c) \/ ~con[c].up
\* after an application's close() no further callback of that connection
Quiescent == [][\A c \in All : (cbs[c] = "closed" /\ con[c].st = "closed") => (read'[c] = read[c] /\ reps'[c] = reps[c])]_mcVars
\* a closed connection stays closed and nothing more is sent
ClosedStays == [][\A c \in All : con[c].st = "closed" => con'[c].st = "closed" /\ took'[c] = took[c]]_mcVars
=============================================================================
