-------------------------------- MODULE Pkg --------------------------------
(* A binary package: a head of fixed size, a body and a reading position in the body. Bytes are numbers 0..255. *)
EXTENDS Integers, Sequences
Fill(n, b) == [i \in 1..n |-> b]
New(h) == [head |-> Fill(h, 0), body |-> <<>>, pos |-> 0]
OfBytes(h, s) == [head |-> SubSeq(s, 1, h), body |-> SubSeq(s, h + 1, Len(s)), pos |-> 0]
Bytes(p) == p.head \o p.body
Left(p) == IF Len(p.body) > p.pos THEN Len(p.body) - p.pos ELSE 0
Append2(p, b) == [p EXCEPT !.body = @ \o b]
\* b over what is at position i of the whole package (the package grows if b goes beyond it)
Over(p, i, b) == LET w == Bytes(p) n == SubSeq(w, 1, i) \o b \o SubSeq(w, i + Len(b) + 1, Len(w)) IN [OfBytes(Len(p.head), n) EXCEPT !.pos = p.pos]
Rest(p) == SubSeq(p.body, p.pos + 1, Len(p.body))
\* reading: [ok, v, p]
No == [ok |-> FALSE]
Read(p, n) == IF n < 0 \/ n > Left(p) THEN No ELSE [ok |-> TRUE, v |-> SubSeq(p.body, p.pos + 1, p.pos + n), p |-> [p EXCEPT !.pos = @ + n]]
Str(p) == LET z == {i \in 1..Left(p) : Rest(p)[i] = 0} IN
          IF z = {} THEN No ELSE LET e == CHOOSE i \in z : \A j \in z : i <= j IN
                                 [ok |-> TRUE, v |-> SubSeq(Rest(p), 1, e - 1), p |-> [p EXCEPT !.pos = @ + e]]
Big(s) == IF Len(s) = 4 /\ s[1] > 0 THEN 16777216 ELSE LET RECURSIVE n(_) n(i) == IF i = 0 THEN 0 ELSE n(i - 1) * 256 + s[i] IN n(Len(s))
Prefixed(p, k) == LET a == Read(p, k) IN IF ~a.ok THEN No ELSE Read(a.p, Big(a.v))
\* seek: the position asked for, which is in the body; its end is refused or taken
Target(p, off, dir) == off + (IF dir = 0 THEN 0 ELSE IF dir = 1 THEN p.pos ELSE Len(p.body))
SeekOk(p, off, dir) == LET t == Target(p, off, dir) IN t >= 0 /\ t <= Len(p.body) /\ (dir = 2 => off <= 0)
SeekMust(p, off, dir) == LET t == Target(p, off, dir) IN t >= 0 /\ t < Len(p.body) /\ (dir = 2 => off <= 0)
BE(n, k) == [i \in 1..k |-> (n \div 256^(k - i)) % 256]
=============================================================================
