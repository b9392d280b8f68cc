------------------------------- MODULE MCPkg -------------------------------
\* What is written is read again in the same order; reading never leaves the body.
EXTENDS Pkg, TLC
CONSTANTS H, MaxOps, Vals
VARIABLES p, todo, fresh     \* todo: what was written and not yet read (while nothing but writing and reading happened)
vars == <<p, todo, fresh>>
Init == p = New(H) /\ todo = <<>> /\ fresh = 0
W(x) == todo' = Append(todo, x)
Write == /\ fresh < MaxOps /\ fresh' = fresh + 1
         /\ \/ \E v \in Vals, k \in 1..2 : p' = Append2(p, BE(v, k)) /\ W([k |-> "int", v |-> BE(v, k)])
            \/ \E s \in {<<>>, <<7>>, <<7, 8>>} : p' = Append2(p, s \o <<0>>) /\ W([k |-> "str", v |-> s])
            \/ \E s \in {<<>>, <<0>>, <<7, 0>>} : \E k \in {1, 2} : p' = Append2(p, BE(Len(s), k) \o s) /\ W([k |-> "pre", n |-> k, v |-> s])
ReadNext == /\ todo # <<>> /\ LET x == todo[1] r == IF x.k = "int" THEN Read(p, Len(x.v)) ELSE IF x.k = "str" THEN Str(p) ELSE Prefixed(p, x.n) IN
                             /\ Assert(r.ok /\ r.v = x.v, x) /\ p' = r.p
            /\ todo' = Tail(todo) /\ UNCHANGED fresh
Next == Write \/ ReadNext
Spec == Init /\ [][Next]_vars
InBody == p.pos <= Len(p.body) /\ Len(p.head) = H
NothingLeft == todo = <<>> => Left(p) = 0 /\ ~Read(p, 1).ok /\ ~Str(p).ok /\ ~Prefixed(p, 1).ok
Patch == \A i \in 0..Len(Bytes(p)) : LET q == Over(p, i, <<9>>) IN Len(Bytes(q)) = Len(Bytes(p)) + (IF i = Len(Bytes(p)) THEN 1 ELSE 0) /\ Bytes(q)[i + 1] = 9
=============================================================================
