------------------------------- MODULE MCConn -------------------------------
\* A client reads a stream that arrives in pieces, with timeouts, as a clock ticks: it gets the stream in order, misses nothing
\* that is there in time, and learns of the end after the last byte.
EXTENDS Conn, TLC
CONSTANTS Bytes, Horizon, To
VARIABLES p, pos, now, got, last
vars == <<p, pos, now, got, last>>
Init == /\ \E a \in 0..Bytes, b \in 0..Bytes, t \in 0..2, u \in 3..4, f \in {-1, 4, 5}, x \in {-1, 5} :
             p = [arr |-> (IF a > 0 THEN <<<<t, a>>>> ELSE <<>>) \o (IF b > 0 THEN <<<<u, a + b>>>> ELSE <<>>), fin |-> f, rst |-> x]
        /\ pos = 0 /\ now = 0 /\ got = <<>> /\ last = 1
Step(n, t1, r) == now' = t1 /\ pos' = (IF r > 0 THEN pos + r ELSE pos) /\ got' = (IF r > 0 THEN got \o [i \in 1..r |-> pos + i] ELSE got) /\ last' = r /\ UNCHANGED p
ReadA == \E n \in 0..Bytes, d \in 0..To, r \in -1..Bytes : ReadMay(p, pos, n, To, now, now + d, r) /\ Step(n, now + d, r)
ReadnA == \E n \in 0..Bytes, d \in 0..To, r \in -1..Bytes : ReadnMay(p, pos, n, To, now, now + d, r) /\ Step(n, now + d, r)
Wait == now' = now + 1 /\ UNCHANGED <<p, pos, got, last>>
Next == now < Horizon /\ (ReadA \/ ReadnA \/ Wait)
Spec == Init /\ [][Next]_vars
InOrder == got = [i \in 1..pos |-> i] /\ pos <= Arrived(p, now)
\* some answer is always possible
Answer == \A n \in 1..Bytes : \E d \in 0..To, r \in -1..Bytes : ReadMay(p, pos, n, To, now, now + d, r)
=============================================================================
