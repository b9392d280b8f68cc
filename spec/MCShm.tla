------------------------------- MODULE MCShm -------------------------------
\* Cells packed into bits (cell i of w bits at bits i*w...) behave as Shm's cells; handles see the same cells.
EXTENDS Shm, TLC
CONSTANTS N, W, Big
VARIABLE bits
vars == <<shmVars, bits>>
Keys == {1}
Handles == {1, 2}
Init == ShmInit /\ bits = [b \in 0..(N * W - 1) |-> 0]
Value(i) == LET RECURSIVE s(_) s(j) == IF j = W THEN 0 ELSE bits[i * W + j] * 2^j + s(j + 1) IN s(0)
PackedSet(i, v) == bits' = [b \in DOMAIN bits |-> IF b \div W = i THEN (v \div 2^(b % W)) % 2 ELSE bits[b]]
Next == \/ \E h \in Handles \ DOMAIN hd, n \in {1, N} : CanOpen(1, W, n, n = N) /\ Open(h, 1, W, n) /\ UNCHANGED bits
        \/ \E h \in DOMAIN hd : \/ Drop(h) /\ UNCHANGED bits
                                \/ \E i \in 0..N, v \in 0..(2^W - 1) \cup {Big} : \/ Set(h, i, v, TRUE) /\ PackedSet(i, v)
                                                                                  \/ Set(h, i, v, FALSE) /\ UNCHANGED bits
                                \/ \E i \in 0..N : Get(h, i, IF i < hd[h].n THEN Value(i) ELSE 0) /\ UNCHANGED bits
                                \/ Clear(h) /\ bits' = [b \in DOMAIN bits |-> 0]
Spec == Init /\ [][Next]_vars
Packed == 1 \in DOMAIN seg => \A i \in 0..N-1 : seg[1].cells[i + 1] \in {-1, Value(i)}
Views == \A h \in DOMAIN hd : hd[h].key \in DOMAIN seg /\ hd[h].n <= seg[hd[h].key].n
OneCell == [][\A k \in DOMAIN seg : Cardinality({i \in 1..N : seg[k].cells[i] # seg'[k].cells[i]}) <= 1 \/ seg'[k].cells = Zero(N)]_vars
=============================================================================
