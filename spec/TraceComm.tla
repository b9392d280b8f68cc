----------------------------- MODULE TraceComm -----------------------------
(* Recorded histories of CCommMgr (and of the multi-threaded CNetWorker) against Comm. *)
EXTENDS Comm, TraceBase
vars == <<cfg, con, rej, accerr, tim, msg, udp, calls, rota, l>>
Zero == /\ rej' = 0 /\ accerr' = 0 /\ tim' = {} /\ msg' = {}
SrvOf(e) == [i \in {e.srv[k].id : k \in DOMAIN e.srv} |->
               LET k == CHOOSE k \in DOMAIN e.srv : e.srv[k].id = i IN
               [type |-> e.srv[k].type, pkg |-> e.srv[k].pkg, mr |-> e.srv[k].mr, ms |-> e.srv[k].ms, removed |-> FALSE]]
TInit == /\ cfg = [max |-> 0, fdcap |-> 0, srv |-> <<>>] /\ con = <<>> /\ rej = 0 /\ accerr = 0 /\ tim = {} /\ msg = {}
         /\ udp = <<>> /\ calls = <<>> /\ rota = [n |-> 0, off |-> -1, acc |-> 0] /\ l = 1
Reset == /\ IsEvent("Reset") /\ Zero
         /\ cfg' = [max |-> Ev.max, fdcap |-> Ev.fdcap, srv |-> SrvOf(Ev)]
         /\ calls' = [t \in 0..Ev.workers |-> <<>>] /\ rota' = [n |-> Ev.workers, off |-> -1, acc |-> 0]
         /\ con' = [c \in 1..Ev.nc |-> Fresh]
         /\ udp' = [s \in {Ev.srv[k].id : k \in DOMAIN Ev.srv} |-> [due |-> <<>>, nr |-> 0]]
Known(c) == c \in DOMAIN con
\* the identity the application was given must be that of the connection: its server and its peer's port
Same(e) == Known(e.c) /\ con[e.c].srv = e.srv /\ con[e.c].port = e.port
\* raw streams are kept as runs
Pk(c, p) == IF cfg.srv[p.srv].pkg = "raw" THEN [run |-> <<p.t, 0, p.n>>] ELSE [t |-> p.t, n |-> p.n, bad |-> p.bad]
IsCb(name) == IsEvent(name)
TNext ==
  \/ Reset
  \/ IsEvent("Accept") /\ Accept(Ev.c, Ev.srv, Ev.port, Ev.fd)
  \/ IsEvent("In") /\ PeerSends(Ev.c, <<Pk(Ev.c, Ev)>>)
  \/ IsEvent("Gone") /\ PeerGone(Ev.c, Ev.how)
  \/ IsEvent("Recv") /\ Recv(Ev.c, Ev.n)
  \/ IsEvent("RecvFails") /\ RecvFails(Ev.c, Ev.kind)
  \/ IsCb("OnConnect") /\ Same(Ev) /\ ((Ev.ok = 1 /\ Ev.data = 0 /\ OnConnectIn(Ev.th, Ev.c)) \/ OnConnectOut(Ev.th, Ev.c, Ev.ok = 1, Ev.data))
  \/ IsCb("OnRead") /\ Same(Ev) /\ OnRead(Ev.th, Ev.c, Ev.rs)
  \/ IsCb("OnClose") /\ Same(Ev) /\ OnClose(Ev.th, Ev.c)
  \/ IsCb("OnError") /\ Ev.code # 3 /\ Same(Ev) /\ OnError(Ev.th, Ev.c, Ev.code)
  \/ IsCb("OnError") /\ Ev.code = 3 /\ OnTooMany
  \/ IsCb("OnError") /\ Ev.c = 0 /\ Ev.code = 1 /\ OnAcceptError
  \/ IsCb("MgrError") /\ (OnTooMany \/ OnAcceptError)
  \/ IsEvent("AcceptFails") /\ AcceptFails
  \/ IsEvent("SockClose") /\ SockClose(Ev.c)
  \/ IsEvent("Write") /\ WriteCall(Ev.th, Ev.c, Ev.rs, Ev.close = 1)
  \/ IsEvent("WriteRet") /\ WriteRet(Ev.th, Ev.r)
  \/ IsEvent("Sent") /\ Sent(Ev.c, Ev.rs)
  \/ IsEvent("Close") /\ CloseCall(Ev.th, Ev.c)
  \/ IsEvent("CloseRet") /\ CloseRet(Ev.th)
  \/ IsEvent("Connect") /\ ConnectCall(Ev.th, Ev.srv, Ev.port, Ev.data)
  \/ IsEvent("Socket") /\ Socket(Ev.th, Ev.c)
  \/ IsEvent("Connecting") /\ Connecting(Ev.th, Ev.c, Ev.res)
  \/ IsEvent("Established") /\ Established(Ev.c, Ev.ok = 1)
  \/ IsEvent("ConnectRet") /\ ConnectRet(Ev.th, Ev.c)
  \/ IsEvent("RmSrv") /\ RmSrvCall(Ev.th, Ev.srv)
  \/ IsEvent("RmSrvRet") /\ Ev.r = 0 /\ RmSrvRet(Ev.th)
  \/ IsEvent("AddTimer") /\ Ev.r = 0 /\ \E at \in Ev.lo..Ev.hi : AddTimer(Ev.w, Ev.id, at, Ev.data)
  \/ IsEvent("DelTimer") /\ DelTimer(Ev.w, Ev.id)
  \/ IsCb("OnTimer") /\ OnTimer(Ev.th, Ev.id, Ev.data, Ev.now)
  \/ IsEvent("Msg") /\ MsgCall(Ev.w, Ev.id, Ev.type)
  \/ IsEvent("MsgRet") /\ MsgRet(Ev.id, Ev.r)
  \/ IsCb("OnMessage") /\ OnMessage(Ev.th, Ev.id, Ev.type)
  \/ IsEvent("UdpTaken") /\ UdpTaken(Ev.srv, [t |-> Ev.t, n |-> Ev.n, bad |-> Ev.bad, p |-> Ev.p, port |-> Ev.port])
  \/ IsEvent("UdpFails") /\ UdpFails(Ev.srv)
  \/ IsCb("OnUdpRead") /\ OnUdpRead(Ev.srv, Ev.rs, Ev.port)
  \/ IsCb("OnUdpError") /\ OnUdpError(Ev.srv, Ev.code)
  \/ IsEvent("WriteTo") /\ WriteToCall(Ev.th, Ev.srv, Ev.rs, Ev.port)
  \/ IsEvent("UdpSent") /\ UdpSent(Ev.th, Ev.srv, Ev.rs, Ev.port)
  \/ IsEvent("WriteToRet") /\ WriteToRet(Ev.th, Ev.r)
  \/ IsEvent("Quiet") /\ QuietOk({Ev.unread[i] : i \in DOMAIN Ev.unread}, {Ev.room[i] : i \in DOMAIN Ev.room},
                                 Ev.backlog, Ev.now) /\ UNCHANGED commVars
  \/ IsEvent("End") /\ Ev.objs = Ev.base /\ (\A c \in DOMAIN con : con[c].st \in {"none", "closed"}) /\ UNCHANGED commVars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
