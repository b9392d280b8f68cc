-------------------------------- MODULE Conn --------------------------------
(* A client connection with timeouts (CTcpConnector) and a client of datagrams (CUdpConnector). Times in ms.
   A peer: arr = sequence of <<time, bytes in all that have arrived by then>>, fin / rst = time of the end (-1: never). *)
EXTENDS Integers, Sequences
Arrived(p, t) == LET s == SelectSeq(p.arr, LAMBDA a : a[1] <= t) IN IF s = <<>> THEN 0 ELSE s[Len(s)][2]
Total(p) == IF p.arr = <<>> THEN 0 ELSE p.arr[Len(p.arr)][2]
Fin(p, t) == p.fin >= 0 /\ p.fin <= t
Rst(p, t) == p.rst >= 0 /\ p.rst <= t
\* one read of up to n bytes between t0 and t1: r > 0 bytes, the end (0), or nothing in time (-1)
ReadMay(p, pos, n, to, t0, t1, r) ==
  CASE r > 0 -> r <= n /\ pos + r <= Arrived(p, t1)
    [] r = 0 -> n = 0 \/ (Fin(p, t1) /\ pos = Total(p)) \/ Rst(p, t1)
    [] OTHER -> r = -1 /\ (Rst(p, t1) \/ (Arrived(p, t0 + to - 1) = pos /\ ~Fin(p, t0 + to - 1)))
\* n bytes, fewer only at the end; -1 if they did not come in time
ReadnMay(p, pos, n, to, t0, t1, r) ==
  CASE r = n -> pos + r <= Arrived(p, t1)
    [] r >= 0 /\ r < n -> pos + r <= Arrived(p, t1) /\ ((Fin(p, t1) /\ pos + r = Total(p)) \/ Rst(p, t1))
    [] OTHER -> r = -1 /\ (Rst(p, t1) \/ (t1 - t0 >= to /\ Arrived(p, t1 - 1) - pos < n))
\* the system's answer to a connect: good after delay ms, bad after delay ms, or none at all
ConnectMust(k, delay, to) == k = "ok" /\ delay < to
ConnectMay(k, delay, to) == k = "ok" /\ delay <= to
=============================================================================
