-------------------------------- MODULE Shm --------------------------------
(* Arrays of cells in shared memory, seen through handles: CBitmap<w> (cells of w bits) and CShmArray (w = 0).
   A segment lives on when its handles are gone; a cell that was set to more than fits is unknown (-1) until it is read. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES seg, hd      \* key -> [w, n, cells]; handle -> [key, n]
shmVars == <<seg, hd>>
ShmInit == seg = << >> /\ hd = << >>
Zero(n) == [i \in 1..n |-> 0]
\* a handle for the first n cells of an existing segment, or a new segment of zeroes
Open(h, k, w, n) ==
  IF k \in DOMAIN seg THEN /\ seg[k].w = w /\ n <= seg[k].n
                           /\ hd' = [x \in DOMAIN hd \cup {h} |-> IF x = h THEN [key |-> k, n |-> n] ELSE hd[x]] /\ UNCHANGED seg
  ELSE /\ seg' = [x \in DOMAIN seg \cup {k} |-> IF x = k THEN [w |-> w, n |-> n, cells |-> Zero(n)] ELSE seg[x]]
       /\ hd' = [x \in DOMAIN hd \cup {h} |-> IF x = h THEN [key |-> k, n |-> n] ELSE hd[x]]
CanOpen(k, w, n, create) == IF k \in DOMAIN seg THEN n <= seg[k].n ELSE create
Drop(h) == hd' = [x \in DOMAIN hd \ {h} |-> hd[x]] /\ UNCHANGED seg
Max(w) == IF w = 0 THEN 2147483647 ELSE 2^w - 1
Put(k, i, v) == seg' = [seg EXCEPT ![k].cells[i + 1] = v]
Set(h, i, v, ok) == LET k == hd[h].key IN
  IF i < hd[h].n THEN ok /\ Put(k, i, IF v <= Max(seg[k].w) THEN v ELSE -1) /\ UNCHANGED hd
  ELSE ~ok /\ UNCHANGED shmVars
Get(h, i, v) == LET k == hd[h].key IN
  IF i >= hd[h].n THEN v = 0 /\ UNCHANGED shmVars
  ELSE IF seg[k].cells[i + 1] = -1 THEN v \in 0..Max(seg[k].w) /\ Put(k, i, v) /\ UNCHANGED hd
  ELSE v = seg[k].cells[i + 1] /\ UNCHANGED shmVars
Clear(h) == LET k == hd[h].key IN hd[h].n = seg[k].n /\ seg' = [seg EXCEPT ![k].cells = Zero(seg[k].n)] /\ UNCHANGED hd
=============================================================================
