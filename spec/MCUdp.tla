------------------------------- MODULE MCUdp -------------------------------
(* The datagram part of Comm: every datagram taken from the system is reported exactly once before the next is taken,
   with its own bytes and sender or as an error; what is sent is what was asked to be sent, once.                  *)
EXTENDS Comm, TLC
VARIABLES took, told, asked, went
mcVars == <<cfg, con, rej, accerr, tim, msg, udp, calls, rota, took, told, asked, went>>
Init == /\ cfg = [max |-> 1, fdcap |-> 9, srv |-> <<[type |-> "udp", pkg |-> "h2s", mr |-> 2, ms |-> 1, removed |-> FALSE]>>]
        /\ con = <<>> /\ rej = 0 /\ accerr = 0 /\ tim = {} /\ msg = {} /\ calls = [t \in {0} |-> <<>>] /\ rota = [n |-> 0, off |-> -1, acc |-> 0]
        /\ udp = <<[due |-> <<>>, nr |-> 0]>> /\ took = <<>> /\ told = <<>> /\ asked = <<>> /\ went = <<>>
D == {d \in [t : {Len(took) + 1}, n : 0..3, bad : {0, 1, 2}, p : 0..1, port : {5, 6}] : IF d.bad = 2 THEN d.p = 1 /\ d.n > 1 ELSE d.p = 0}   \* bad = 2: a package of p = 1 byte and more after it
Next ==
  \/ \E d \in D : NoCalls /\ Len(took) < 3 /\ UdpTaken(1, d) /\ took' = Append(took, d) /\ UNCHANGED <<told, asked, went>>
  \/ udp[1].nr < 1 /\ UdpFails(1) /\ UNCHANGED <<took, told, asked, went>>
  \/ \E p \in {5, 6}, n \in 0..3 : OnUdpRead(1, <<<<Len(took), 0, n>>>>, p) /\ told' = Append(told, <<"read", Len(took), n, p>>)
                                   /\ UNCHANGED <<took, asked, went>>
  \/ \E c \in {1, 2, 4, 5} : /\ OnUdpError(1, c)
                             /\ told' = IF udp'[1].due # udp[1].due THEN Append(told, <<"error", Len(took), 0, 0>>) ELSE told
                             /\ UNCHANGED <<took, asked, went>>
  \/ \E p \in {5, 6} : NoCalls /\ Len(asked) < 2 /\ WriteToCall(0, 1, <<<<Len(asked) + 1, 0, 1>>>>, p)
                       /\ asked' = Append(asked, p) /\ UNCHANGED <<took, told, went>>
  \/ ~NoCalls /\ UdpSent(0, 1, Top(0).rs, Top(0).port) /\ went' = Append(went, <<Top(0).rs[1][1], Top(0).port>>) /\ UNCHANGED <<took, told, asked>>
  \/ \E r \in {0, -1} : WriteToRet(0, r) /\ UNCHANGED <<took, told, asked, went>>
Spec == Init /\ [][Next]_mcVars
Once == Len(told) <= Len(took) /\ Len(told) >= Len(took) - 1
Whole == \A i \in DOMAIN told : told[i][1] = "read" => LET d == took[i] IN told[i][3] \in {d.n, IF d.bad = 2 THEN d.p ELSE d.n} /\ told[i][4] = d.port /\ d.bad # 1 /\ d.n <= 2
SentOnce == \A i, j \in DOMAIN went : (went[i][1] = went[j][1] => i = j) /\ went[i][2] = asked[went[i][1]]
=============================================================================
