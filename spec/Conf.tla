-------------------------------- MODULE Conf --------------------------------
(* Configuration files: sections of name = value. *)
EXTENDS Http
White(c) == c \in {32, 9, 13, 10}
RECURSIVE LT(_), RT(_)
LT(b) == IF b # <<>> /\ White(b[1]) THEN LT(Tail(b)) ELSE b
RT(b) == IF b # <<>> /\ White(b[Len(b)]) THEN RT(SubSeq(b, 1, Len(b) - 1)) ELSE b
Trim(b) == LT(RT(b))
\* st: [app, vals]; vals: sequence of [k = <<section, name>>, v], the last of a key counts
Line(st, s0) ==
  LET s == Ltrim(s0) e == Find(s, <<61>>, 1) c == Find(s, <<93>>, 1) IN
  IF s = <<>> \/ s[1] \in {35, 59} THEN st
  ELSE IF s[1] = 91 THEN IF c = 0 \/ Trim(SubSeq(s, 2, c - 1)) = <<>> THEN st ELSE [st EXCEPT !.app = Trim(SubSeq(s, 2, c - 1))]
  ELSE IF e = 0 \/ Trim(SubSeq(s, 1, e - 1)) = <<>> THEN st
  ELSE [st EXCEPT !.vals = Append(@, [k |-> <<st.app, Trim(SubSeq(s, 1, e - 1))>>, v |-> Trim(From(s, e + 1))])]
Load(vals, text) == FoldLeft(Line, [app |-> <<>>, vals |-> vals], Split(text, <<10>>)).vals
\* numbers as decimal texts
RECURSIVE Zeros(_)
Zeros(b) == IF Len(b) > 1 /\ b[1] = 48 THEN Zeros(Tail(b)) ELSE b
Canon(b) == LET n == IF b # <<>> /\ b[1] \in {43, 45} THEN Tail(b) ELSE b z == Zeros(n) IN
            IF z = <<48>> \/ b[1] # 45 THEN z ELSE <<45>> \o z
IsNum(b) == b # <<>> /\ Digits(IF b[1] \in {43, 45} THEN Tail(b) ELSE b)
Addr(b) == LET c == Find(b, <<58>>, 1) IN [ip |-> SubSeq(b, 1, c - 1), port |-> ToNum(From(b, c + 1))]
AddrOk(b) == LET c == Find(b, <<58>>, 1) p == From(b, c + 1)
                 q == Split(SubSeq(b, 1, c - 1), <<46>>) IN
             /\ c > 0 /\ Digits(p) /\ Len(p) <= 5 /\ ToNum(p) \in 1..65535
             /\ Len(q) = 4 /\ \A i \in DOMAIN q : Digits(q[i]) /\ Len(q[i]) <= 3
=============================================================================
