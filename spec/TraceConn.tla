------------------------------ MODULE TraceConn ------------------------------
(* Recorded uses of CTcpConnector and CUdpConnector, judged by Conn. Every event says when it began and ended (t0, t1), which
   connection is open afterwards (con, 0 if none) and how many descriptors are (open). *)
EXTENDS Conn, TraceBase
VARIABLES peers, used, con, pos, addr, q   \* used: how many of the peers the client has met
vars == <<l, peers, used, con, pos, addr, q>>
D(c, j) == (c * 37 + j * 11 + j \div 256) % 251
Data(c, a, n) == [i \in 1..n |-> D(c, a + i)]
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
TInit == l = 1 /\ peers = <<>> /\ used = 0 /\ con = 0 /\ pos = 0 /\ addr = <<>> /\ q = <<>>
Fds == Ev.open = (IF Ev.con = 0 THEN 0 ELSE 1)
\* what a connect in this event came to: plan is the system's answer
Plan == Ev.plan
Made == Len(peers) > used
TcpConnect ==
  /\ IsEvent("Connect") /\ Fds /\ Ev.t1 - Ev.t0 <= Ev.to + 1
  /\ IF Ev.ok THEN Made /\ ConnectMay(Plan.k, Plan.d, Ev.to) /\ Ev.con = Len(peers) /\ peers[Ev.con].addr = Ev.addr
     ELSE ~ConnectMust(Plan.k, Plan.d, Ev.to) /\ Ev.con = 0
  /\ con' = Ev.con /\ pos' = 0 /\ addr' = [a |-> Ev.addr, to |-> Ev.to] /\ used' = Len(peers) /\ UNCHANGED <<peers, q>>
\* a write may have to connect again first; it takes at least one byte, or fails, for a reason, and then the connection is closed
Write ==
  /\ IsEvent("Write") /\ Fds
  /\ LET was == con # 0  c == IF was THEN con ELSE Len(peers) IN
     /\ was => ~Made
     /\ ~was /\ Made => ConnectMay(Plan.k, Plan.d, addr.to) /\ peers[c].addr = addr.a
     /\ IF Ev.r >= 0 THEN /\ was \/ Made
                          /\ Ev.con = c /\ Ev.r = Len(Ev.got) /\ Prefix(Ev.got, Ev.data) /\ (Ev.data # <<>> => Ev.got # <<>>)
        ELSE /\ Ev.r = -1 /\ Ev.con = 0 /\ (~was => Ev.got = <<>>)
             /\ (was \/ ConnectMust(Plan.k, Plan.d, addr.to)) => Ev.serr \/ Ev.blk < 0 \/ Ev.blk >= Ev.to \/ (c <= Len(peers) /\ Rst(peers[c], Ev.t1))
     /\ Ev.t1 - Ev.t0 <= Ev.to + (IF was THEN 0 ELSE addr.to) + 1
     /\ pos' = IF was THEN pos ELSE 0
  /\ con' = Ev.con /\ used' = Len(peers) /\ UNCHANGED <<peers, addr, q>>
Read ==
  /\ IsEvent("Read") /\ Fds
  /\ IF con = 0 THEN Ev.r = -1 /\ Ev.con = 0 /\ UNCHANGED <<con, pos>>
     ELSE /\ ReadMay(peers[con], pos, Ev.n, Ev.to, Ev.t0, Ev.t1, Ev.r)
          /\ Ev.v = (IF Ev.r > 0 THEN Data(con, pos, Ev.r) ELSE <<>>)
          /\ Ev.t1 - Ev.t0 <= Ev.to + 1
          /\ pos' = pos + Len(Ev.v) /\ (Ev.con = con \/ (Ev.con = 0 /\ (Ev.r = 0 \/ Rst(peers[con], Ev.t1)))) /\ con' = Ev.con
  /\ UNCHANGED <<peers, used, addr, q>>
Readn ==
  /\ IsEvent("Readn") /\ Fds
  /\ IF con = 0 THEN Ev.r = -1 /\ Ev.con = 0 /\ UNCHANGED <<con, pos>>
     ELSE /\ ReadnMay(peers[con], pos, Ev.n, Ev.to, Ev.t0, Ev.t1, Ev.r)
          /\ Ev.v = (IF Ev.r > 0 THEN Data(con, pos, Ev.r) ELSE <<>>)
          /\ pos' = (IF Ev.r >= 0 THEN pos + Ev.r ELSE Ev.cpos) /\ (Ev.r < 0 => Ev.cpos \in pos..Arrived(peers[con], Ev.t1))
          /\ (Ev.con = con \/ (Ev.con = 0 /\ (Ev.r \in 0..(Ev.n - 1) \/ Rst(peers[con], Ev.t1)))) /\ con' = Ev.con
  /\ UNCHANGED <<peers, used, addr, q>>
\* datagrams: q = those on their way to the client, <<time, bytes>>
UConnect == /\ IsEvent("UConnect") /\ Fds /\ Ev.ok = ~Plan.bad
            /\ IF Ev.ok THEN Ev.con # 0 /\ Ev.bound \in {Ev.want, "any"} /\ Ev.lport = Ev.wport ELSE Ev.con = 0
            /\ con' = Ev.con /\ addr' = Ev.addr /\ q' = <<>> /\ UNCHANGED <<peers, used, pos>>
USend == /\ IsEvent("USend") /\ Fds /\ Ev.con = con
         /\ IF con = 0 \/ Ev.err THEN Ev.r = -1 /\ Ev.got = <<>>
            ELSE Ev.r = Len(Ev.data) /\ Ev.got = <<[to |-> addr, b |-> Ev.data]>>
         /\ UNCHANGED <<peers, used, con, pos, addr, q>>
UArrive == IsEvent("UArrive") /\ q' = Append(q, [t |-> Ev.t, b |-> Ev.b]) /\ UNCHANGED <<peers, used, con, pos, addr>>
URecv == /\ IsEvent("URecv") /\ Fds /\ Ev.con = con /\ Ev.t1 - Ev.t0 <= Ev.to + 1
         /\ IF con = 0 \/ q = <<>> \/ q[1].t > Ev.t1 THEN Ev.r = -1 /\ Ev.v = <<>> /\ q' = q /\ (con # 0 /\ q # <<>> => q[1].t >= Ev.t0 + Ev.to)
            ELSE /\ LET n == IF Len(q[1].b) < Ev.n THEN Len(q[1].b) ELSE Ev.n IN
                    /\ Ev.v = SubSeq(q[1].b, 1, n) /\ (Ev.r = n \/ (n = 0 /\ Ev.r = -1))
                 /\ q' = Tail(q)
         /\ UNCHANGED <<peers, used, con, pos, addr>>
TNext == \/ IsEvent("Reset") /\ peers' = <<>> /\ used' = 0 /\ con' = 0 /\ pos' = 0 /\ addr' = <<>> /\ q' = <<>>
         \/ IsEvent("Peer") /\ peers' = Append(peers, [arr |-> Ev.arr, fin |-> Ev.fin, rst |-> Ev.rst, addr |-> Ev.addr]) /\ UNCHANGED <<used, con, pos, addr, q>>
         \/ TcpConnect \/ Write \/ Read \/ Readn \/ UConnect \/ USend \/ UArrive \/ URecv
         \/ IsEvent("Close") /\ Fds /\ Ev.con = 0 /\ con' = 0 /\ q' = <<>> /\ UNCHANGED <<peers, used, pos, addr>>
         \/ IsEvent("End") /\ Ev.open = 0 /\ UNCHANGED <<peers, used, con, pos, addr, q>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
