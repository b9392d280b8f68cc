-------------------------------- MODULE Comm --------------------------------
(* The TCP/UDP communication managers as their user sees them: connections, packages in, bytes out, callbacks,
   the client limit, timers, messages from other threads, outgoing connections, datagrams. CCommMgr has one reactor
   thread (0); CNetWorkerMgr accepts in thread 0 and hands the connections to workers, each with a thread of its own.
   Bytes are described as runs <<tag, offset, length>> over the byte strings of the history.              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,    \* [max, fdcap, srv]: client limit, size of the connection table, the servers
          con,    \* connection id -> its state
          rej,    \* rejected connections minus "too many clients" reports
          accerr, \* accept failures not yet reported
          tim,    \* armed timers
          msg,    \* messages sent and not delivered
          udp,    \* server id -> datagrams
          calls,  \* thread -> its calls that have not returned
          rota    \* how the workers take turns: [n |-> number of workers (0: one reactor), off |-> offset, acc |-> accepted so far]
commVars == <<cfg, con, rej, accerr, tim, msg, udp, calls, rota>>

RECURSIVE RLen(_)
RLen(s) == IF s = <<>> THEN 0 ELSE Head(s)[3] + RLen(Tail(s))
\* what is left of q after the bytes r, or "no" if q does not start with r
RECURSIVE Consume(_, _)
Consume(q, r) ==
  IF r = <<>> THEN [ok |-> TRUE, q |-> q]
  ELSE IF q = <<>> THEN [ok |-> FALSE, q |-> q]
  ELSE LET a == Head(q) b == Head(r) IN
       IF a[1] # b[1] \/ a[2] # b[2] \/ b[3] > a[3] \/ b[3] < 1 THEN [ok |-> FALSE, q |-> q]
       ELSE IF b[3] = a[3] THEN Consume(Tail(q), Tail(r))
       ELSE Consume(<<<<a[1], a[2] + b[3], a[3] - b[3]>>>> \o Tail(q), Tail(r))
RECURSIVE Keep(_, _)
Keep(q, n) == IF n <= 0 \/ q = <<>> THEN <<>>
              ELSE IF Head(q)[3] <= n THEN <<Head(q)>> \o Keep(Tail(q), n - Head(q)[3])
              ELSE <<<<Head(q)[1], Head(q)[2], n>>>>

\* ---------------------------------------------------------------- connections
Fresh == [st |-> "none", srv |-> 0, port |-> 0, up |-> FALSE, inq |-> <<>>, got |-> 0, eof |-> FALSE, rfail |-> FALSE,
          peer |-> "ok", out |-> <<>>, need |-> FALSE, note |-> FALSE, owe |-> "not", est |-> "", data |-> 0, nr |-> 0,
          w |-> -1, no |-> 0]
Srv(c) == cfg.srv[con[c].srv]
Raw(c) == Srv(c).pkg = "raw"
Open(c) == con[c].st = "open"
\* the next package in the stream (records: t tag, n length, bad: number of its bytes that show it malformed, 0 never)
Complete(c) == /\ con[c].inq # <<>>
               /\ IF Raw(c) THEN con[c].got > 0
                  ELSE LET h == Head(con[c].inq) IN h.bad = 0 /\ con[c].got >= h.n /\ h.n <= Srv(c).mr
BadHead(c) == ~Raw(c) /\ con[c].inq # <<>> /\ LET h == Head(con[c].inq) IN h.bad > 0 /\ con[c].got >= h.bad
TooBig(c) == ~Raw(c) /\ con[c].inq # <<>> /\ LET h == Head(con[c].inq) IN
               /\ con[c].got > 0 /\ (h.n > Srv(c).mr \/ (h.bad > Srv(c).mr))
Flushed(c) == con[c].need /\ con[c].out = <<>>
Removed(c) == Srv(c).removed
Clients == Cardinality({c \in DOMAIN con : con[c].st = "open" /\ Srv(c).type = "tcp"})

Set(c, r) == con' = [con EXCEPT ![c] = r]
\* the system accepts a connection from a listening server; fd is its descriptor
Accept(c, s, port, fd) ==
  /\ con[c].st = "none" /\ cfg.srv[s].type = "tcp" /\ ~cfg.srv[s].removed
  /\ LET room == (IF rota.n = 0 THEN Clients < cfg.max ELSE fd <= cfg.max) /\ fd < cfg.fdcap IN
     /\ Set(c, [Fresh EXCEPT !.st = IF room THEN "open" ELSE "rej", !.srv = s, !.port = port, !.peer = con[c].peer,
                             !.inq = con[c].inq, !.no = rota.acc])
     /\ rej' = IF room THEN rej ELSE rej + 1
     /\ rota' = IF room /\ rota.n > 0 THEN [rota EXCEPT !.acc = @ + 1] ELSE rota
  /\ UNCHANGED <<cfg, accerr, tim, msg, udp, calls>>
\* the peer sends: these packages are now in the stream (inq), they arrive with Recv
PeerSends(c, ps) == /\ con[c].st \in {"none", "open", "rej", "closed"}
                    /\ Set(c, [con[c] EXCEPT !.inq = @ \o ps])
                    /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
PeerGone(c, how) == Set(c, [con[c] EXCEPT !.peer = how]) /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
Recv(c, n) == /\ Open(c)
              /\ IF n > 0 THEN Set(c, [con[c] EXCEPT !.got = @ + n]) ELSE Set(c, [con[c] EXCEPT !.eof = TRUE])
              /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
RecvFails(c, kind) ==   \* kind: "again" (try later), "gone" (the connection is broken)
  /\ IF kind = "gone" THEN Set(c, [con[c] EXCEPT !.rfail = TRUE]) ELSE Set(c, [con[c] EXCEPT !.nr = @ + 1])
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>

Broken(c) == con[c].eof \/ con[c].rfail \/ con[c].peer = "rst"
\* no more callbacks for a connection that was closed, except the report that says why
CanNotify(c) == con[c].up /\ ~con[c].note /\ (Open(c) \/ (con[c].st = "closed" /\ con[c].owe # "not"))

\* consecutive connections go to the workers in turn; from then on the connection belongs to its worker
OnConnectIn(t, c) == /\ Open(c) /\ Srv(c).type = "tcp" /\ ~con[c].up
                     /\ Set(c, [con[c] EXCEPT !.up = TRUE, !.w = t])
                     /\ IF rota.n = 0 THEN t = 0 /\ UNCHANGED rota
                        ELSE LET o == (t - 1 - con[c].no) % rota.n IN
                             /\ t \in 1..rota.n /\ rota.off \in {-1, o} /\ rota' = [rota EXCEPT !.off = o]
                     /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls>>
OnConnectOut(t, c, ok, data) ==
  /\ con[c].w = t /\ con[c].st # "none" /\ Srv(c).type = "conn" /\ ~con[c].up /\ ~con[c].note /\ con[c].data = data
  /\ IF ok THEN Open(c) /\ con[c].est = "ok" /\ Set(c, [con[c] EXCEPT !.up = TRUE])
     ELSE /\ \/ con[c].est = "fail" /\ (con[c].st = "conn" \/ (con[c].st = "closed" /\ con[c].owe # "not"))
             \/ con[c].est = "ok" /\ Open(c) /\ con[c].peer = "rst"   \* established, and reset before it was looked at
          /\ Set(c, [con[c] EXCEPT !.note = TRUE, !.owe = "not"])
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
OnRead(t, c, rs) ==
  /\ con[c].w = t /\ Open(c) /\ con[c].up /\ ~con[c].note /\ Complete(c)
  /\ IF Raw(c)
     THEN LET k == RLen(rs) q == Consume([i \in 1..Len(con[c].inq) |-> con[c].inq[i].run], rs) IN
          /\ q.ok /\ k > 0 /\ k <= con[c].got
          /\ Set(c, [con[c] EXCEPT !.inq = [i \in 1..Len(q.q) |-> [run |-> q.q[i]]], !.got = @ - k])
     ELSE LET h == Head(con[c].inq) IN
          /\ rs = <<<<h.t, 0, h.n>>>>
          /\ Set(c, [con[c] EXCEPT !.inq = Tail(@), !.got = @ - h.n])
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
\* the peer is gone: reported once, after every complete package
OnClose(t, c) == /\ con[c].w = t /\ CanNotify(c) /\ Broken(c) /\ (Open(c) => ~Complete(c))
                 /\ Set(c, [con[c] EXCEPT !.note = TRUE, !.owe = "not"])
                 /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
\* codes: 1 socket, 2 invalid package, 4 no buffer, 5 not ready
OnError(t, c, code) ==
  /\ con[c].w = t
  /\ \/ code = 1 /\ CanNotify(c) /\ Broken(c) /\ Set(c, [con[c] EXCEPT !.note = TRUE, !.owe = "not"])
     \/ code = 2 /\ CanNotify(c) /\ BadHead(c) /\ Set(c, [con[c] EXCEPT !.note = TRUE, !.owe = "not"])
     \/ code = 4 /\ CanNotify(c) /\ TooBig(c) /\ Set(c, [con[c] EXCEPT !.note = TRUE, !.owe = "not"])
     \/ code = 5 /\ con[c].nr > 0 /\ Open(c) /\ Set(c, [con[c] EXCEPT !.nr = @ - 1])
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
OnTooMany == /\ rej > 0 /\ rej' = rej - 1 /\ UNCHANGED <<cfg, con, accerr, tim, msg, udp, calls, rota>>
AcceptFails == accerr' = accerr + 1 /\ UNCHANGED <<cfg, con, rej, tim, msg, udp, calls, rota>>
OnAcceptError == accerr > 0 /\ accerr' = accerr - 1 /\ UNCHANGED <<cfg, con, rej, tim, msg, udp, calls, rota>>

AppCloses(c) == \E t \in DOMAIN calls : \E i \in DOMAIN calls[t] : calls[t][i].op = "close" /\ calls[t][i].c = c
SockClose(c) ==
  /\ con[c].st \in {"open", "conn", "rej"}
  /\ LET app == AppCloses(c) \/ Removed(c)
         notify == con[c].st # "rej" /\ ~con[c].note
         failed == con[c].st = "conn" /\ con[c].est \in {"fail", "now"}
         why == Broken(c) \/ BadHead(c) \/ TooBig(c) \/ failed
     IN /\ con[c].st = "rej" \/ app \/ why \/ Flushed(c)
        /\ Set(c, [con[c] EXCEPT !.st = "closed",
                                 !.owe = IF con[c].est = "now" THEN "not"
                                         ELSE IF app THEN "not"
                                         ELSE IF ~notify THEN "not"
                                         ELSE IF Flushed(c) THEN (IF why THEN "may" ELSE "not")
                                         ELSE "must",
                                 !.out = <<>>])
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>

\* ---------------------------------------------------------------- calls of the application
Push(t, r) == calls' = [calls EXCEPT ![t] = Append(@, r)]
Pop(t) == calls' = [calls EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Busy(t, op) == calls[t] # <<>> /\ calls[t][Len(calls[t])].op = op
Top(t) == calls[t][Len(calls[t])]
NoCalls == \A t \in DOMAIN calls : calls[t] = <<>>
WriteCall(t, c, rs, close) ==
  /\ Push(t, [op |-> "write", c |-> c, n |-> RLen(rs), open |-> Open(c), need |-> con[c].need, close |-> close])
  /\ IF Open(c) THEN Set(c, [con[c] EXCEPT !.out = @ \o SelectSeq(rs, LAMBDA x : x[3] > 0), !.need = @ \/ close]) ELSE UNCHANGED con
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, rota>>
WriteRet(t, r) ==
  /\ Busy(t, "write") /\ Pop(t)
  /\ LET c == Top(t).c left == RLen(con[c].out) IN
     IF r = 0 THEN /\ Top(t).open /\ (Open(c) => left <= Srv(c).ms) /\ UNCHANGED con
     ELSE \/ ~Top(t).open /\ UNCHANGED con
          \/ /\ Top(t).open /\ (~Open(c) \/ con[c].peer # "ok" \/ left > Srv(c).ms)
             /\ IF Open(c)
                THEN Set(c, [con[c] EXCEPT !.out = Keep(@, left - Top(t).n), !.need = Top(t).need])
                ELSE UNCHANGED con
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, rota>>
\* the system takes bytes for the peer: exactly the next ones of what was written
Sent(c, rs) == /\ Open(c)
               /\ LET q == Consume(con[c].out, rs) IN q.ok /\ Set(c, [con[c] EXCEPT !.out = q.q])
               /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
CloseCall(t, c) == Push(t, [op |-> "close", c |-> c]) /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
CloseRet(t) == /\ Busy(t, "close") /\ con[Top(t).c].st \notin {"open", "conn"} /\ Pop(t)
               /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
\* ---- outgoing connections
ConnectCall(t, s, port, data) == /\ Push(t, [op |-> "connect", srv |-> s, port |-> port, data |-> data, c |-> 0])
                                 /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
Socket(t, c) == /\ Busy(t, "connect") /\ Top(t).c = 0 /\ con[c].st = "none"
                /\ calls' = [calls EXCEPT ![t][Len(calls[t])].c = c]
                /\ Set(c, [Fresh EXCEPT !.st = "conn", !.srv = Top(t).srv, !.port = Top(t).port, !.data = Top(t).data, !.w = t])
                /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, rota>>
Connecting(t, c, res) ==   \* "now", "progress", "fail"
  /\ con[c].st = "conn" /\ Busy(t, "connect") /\ Top(t).c = c
  /\ Set(c, [con[c] EXCEPT !.st = IF res = "now" THEN "open" ELSE "conn",
                           !.est = IF res = "now" THEN "ok" ELSE IF res = "fail" THEN "now" ELSE ""])
  /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
Established(c, ok) == /\ con[c].st \in {"conn"} /\ con[c].est = ""
                      /\ Set(c, [con[c] EXCEPT !.est = IF ok THEN "ok" ELSE "fail", !.st = IF ok THEN "open" ELSE "conn"])
                      /\ UNCHANGED <<cfg, rej, accerr, tim, msg, udp, calls, rota>>
ConnectRet(t, c) == /\ Busy(t, "connect") /\ Pop(t)
                    /\ IF c > 0 THEN c = Top(t).c /\ con[c].st \in {"open", "conn"} /\ con[c].est # "now"
                       ELSE (IF Top(t).c = 0 THEN TRUE ELSE con[Top(t).c].st = "closed")
                    /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
\* ---- removing a server closes its connections, without callbacks
RmSrvCall(t, s) == Push(t, [op |-> "rmsrv", srv |-> s]) /\ cfg' = [cfg EXCEPT !.srv[s].removed = TRUE]
                /\ UNCHANGED <<con, rej, accerr, tim, msg, udp, rota>>
RmSrvRet(t) == /\ Busy(t, "rmsrv") /\ Pop(t)
               /\ \A c \in DOMAIN con : con[c].st \in {"open", "conn"} => con[c].srv # Top(t).srv
               /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
\* ---------------------------------------------------------------- timers
AddTimer(w, id, at, data) == /\ tim' = {t \in tim : t.id # id \/ t.w # w} \cup {[id |-> id, at |-> at, data |-> data, w |-> w]}
                             /\ UNCHANGED <<cfg, con, rej, accerr, msg, udp, calls, rota>>
DelTimer(w, id) == tim' = {t \in tim : t.id # id \/ t.w # w} /\ UNCHANGED <<cfg, con, rej, accerr, msg, udp, calls, rota>>
OnTimer(w, id, data, now) == /\ \E t \in tim : /\ t.w = w /\ t.id = id /\ t.data = data /\ t.at <= now
                                               /\ \A u \in tim : u.w = w => u.at >= t.at
                                               /\ tim' = tim \ {t}
                             /\ UNCHANGED <<cfg, con, rej, accerr, msg, udp, calls, rota>>
\* ---------------------------------------------------------------- messages
\* w: the worker it is for
MsgCall(w, id, type) ==
  /\ \A m \in msg : m.id # id
  /\ msg' = msg \cup {[id |-> id, type |-> type, ret |-> FALSE, w |-> w, after |-> {m.id : m \in {x \in msg : x.ret /\ x.w = w}}]}
  /\ UNCHANGED <<cfg, con, rej, accerr, tim, udp, calls, rota>>
MsgRet(id, r) == /\ r = 0
                 /\ msg' = {IF m.id = id THEN [m EXCEPT !.ret = TRUE] ELSE m : m \in msg}
                 /\ UNCHANGED <<cfg, con, rej, accerr, tim, udp, calls, rota>>
OnMessage(w, id, type) == /\ \E m \in msg : /\ m.w = w /\ m.id = id /\ m.type = type
                                            /\ \A o \in msg : o.id \notin m.after
                                            /\ msg' = msg \ {m}
                          /\ UNCHANGED <<cfg, con, rej, accerr, tim, udp, calls, rota>>
\* ---------------------------------------------------------------- datagrams
\* udp[s] = [due |-> the datagram taken from the system and not reported, q |-> ..., sent |-> ...]
UdpTaken(s, d) == /\ udp[s].due = <<>> /\ udp' = [udp EXCEPT ![s].due = <<d>>]
                  /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, calls, rota>>
UdpFails(s) == udp' = [udp EXCEPT ![s].nr = @ + 1] /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, calls, rota>>
OnUdpRead(s, rs, port) ==
  /\ udp[s].due # <<>>
  /\ LET d == Head(udp[s].due) IN d.bad \in {0, 2} /\ d.n <= cfg.srv[s].mr /\ port = d.port
                                  /\ rs \in {<<<<d.t, 0, d.n>>>>} \cup (IF d.bad = 2 THEN {<<<<d.t, 0, d.p>>>>} ELSE {})
  /\ udp' = [udp EXCEPT ![s].due = <<>>]
  /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, calls, rota>>
OnUdpError(s, code) ==
  /\ \/ /\ udp[s].due # <<>>
        /\ LET d == Head(udp[s].due) IN (code = 2 /\ d.bad > 0) \/ (code = 4 /\ d.n > cfg.srv[s].mr) \/ (code = 1 /\ d.n = 0)
        /\ udp' = [udp EXCEPT ![s].due = <<>>]
     \/ code \in {1, 5} /\ udp[s].nr > 0 /\ udp' = [udp EXCEPT ![s].nr = @ - 1]
  /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, calls, rota>>
WriteToCall(t, s, rs, port) == Push(t, [op |-> "writeto", srv |-> s, rs |-> rs, port |-> port, done |-> FALSE])
                            /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
UdpSent(t, s, rs, port) == /\ Busy(t, "writeto") /\ ~Top(t).done /\ Top(t).srv = s /\ Top(t).rs = rs /\ Top(t).port = port
                           /\ calls' = [calls EXCEPT ![t][Len(calls[t])].done = TRUE]
                           /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
WriteToRet(t, r) == /\ Busy(t, "writeto") /\ (r = 0) = Top(t).done /\ Pop(t)
                    /\ UNCHANGED <<cfg, con, rej, accerr, tim, msg, udp, rota>>
\* ---------------------------------------------------------------- nothing left to do
\* unread: connections with data, end of stream or reset not yet taken; room: connections whose peer takes more
QuietOk(unread, room, backlog, now) ==
  /\ NoCalls /\ backlog = 0 /\ rej = 0 /\ msg = {}
  /\ \A t \in tim : t.at + 2 > now
  /\ \A s \in DOMAIN udp : udp[s].due = <<>>
  /\ \A c \in DOMAIN con :
       LET k == con[c] IN
       /\ k.st # "rej" /\ k.owe # "must"
       /\ k.st = "conn" => k.est = ""
       /\ k.st = "open" =>
            /\ k.up /\ c \notin unread /\ ~Complete(c) /\ ~BadHead(c) /\ ~Broken(c) /\ ~Flushed(c) /\ ~k.note
            /\ c \in room => k.out = <<>>
=============================================================================
