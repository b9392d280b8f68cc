------------------------------- MODULE MCAny -------------------------------
\* two values a program builds and encodes: what the encodings give back, and what they refuse
EXTENDS AnyVal, TLC
CONSTANTS Depth, Steps
VARIABLES reg, n
vars == <<reg, n>>
B8(b) == [i \in 1..8 |-> b[i]]
Leaves == {Bool(TRUE), Intg(<<255,255,255,255,255,255,255,127>>, TRUE), Str(<<<<34, 1>>, <<10, 2>>>>)}
\* more of them, checked on their own and in a vector
More == {Null, Bool(FALSE), Str(<<>>), Str(<<<<65, 255>>>>), Str(<<<<65, 256>>>>), Str(<<<<0, 1>>, <<31, 1>>, <<92, 3>>, <<200, 1>>>>), Flt(<<64,9,0,0,0,0,0,0>>)}
        \cup {Intg([i \in 1..8 |-> IF i < k THEN 0 ELSE IF i = k THEN b ELSE c], FALSE) : k \in 1..8, b \in {0, 1, 127, 128, 255}, c \in {0, 255}}
        \cup {Intg([i \in 1..8 |-> IF i < k THEN 255 ELSE IF i = k THEN b ELSE c], TRUE) : k \in 1..8, b \in {128, 200, 255}, c \in {0, 1, 255}}
Key == {<<<<97, 1>>>>, <<<<97, 1>>, <<1, 1>>>>}
Paths == {<<>>} \cup {<<[k |-> k]>> : k \in Key} \cup {<<[i |-> i]>> : i \in {-1, 0, 1}}
         \cup (IF Depth = 1 THEN {} ELSE {<<[k |-> <<<<97, 1>>>>], [k |-> <<<<97, 1>>>>]>>, <<[i |-> 0], [k |-> <<<<97, 1>>>>]>>, <<[k |-> <<<<97, 1>>>>], [i |-> 0]>>})
Vals == Leaves \cup {reg[1], reg[2]}
Ops(v) == [f : {"set", "pushb", "pushf"}, w : Vals] \cup {[f |-> "touch"], [f |-> "clear"]}
          \cup [f : {"insert"}, k : {<<<<98, 1>>>>}, w : {Null, reg[2]}] \cup [f : {"erase"}, k : {<<<<97, 1>>>>}]
          \cup (IF v.t = "vec" /\ v.e # <<>> THEN {[f |-> "popb"], [f |-> "popf"]} ELSE {})
Init == reg = [i \in {1, 2} |-> Null] /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \E i \in {1, 2}, p \in Paths : \E o \in Ops(Look(reg[i], p).v) : reg' = [reg EXCEPT ![i] = Apply(reg[i], p, o).v]
Spec == Init /\ [][Next]_vars
V == {reg[1], reg[2]} \cup (IF n = 0 THEN More \cup {Vec(<<x, x>>) : x \in More} ELSE {})
\* encoding and decoding gives the value back and uses everything up
RoundTrip == \A v \in V : LET x == Dec(Enc(v)) IN x.ok /\ x.v = v /\ x.r = <<>>
\* what is cut short is refused
Cuts == \A v \in V : LET b == Enc(v) IN \A k \in {j \in 0..RLen(b)-1 : j < 40 \/ j > RLen(b) - 4} : ~Dec(Take(b, k)).ok
FT == [x \in {<<64,9,0,0,0,0,0,0>>} |-> <<51, 46, 49>>]
FB == [x \in {<<51, 46, 49>>} |-> <<64,9,0,0,0,0,0,0>>]
JsonTrip == \A v \in V : LET x == Json(JEnc(v, FT), FB) IN x.ok /\ x.v = v
JsonCuts == \A v \in V : v.t \in {"map", "vec", "str"} => LET b == JEnc(v, FT) IN \A k \in {j \in 0..Len(b)-1 : j < 30 \/ j > Len(b) - 3} : ~Json(SubSeq(b, 1, k), FB).ok
RECURSIVE WellFormed(_)
WellFormed(v) == CASE v.t = "vec" -> \A i \in DOMAIN v.e : WellFormed(v.e[i])
                   [] v.t = "map" -> (\A x \in v.m : WellFormed(x.v) /\ RLen(x.k) <= 255) /\ Cardinality(Keys(v)) = Cardinality(v.m)
                   [] v.t = "int" -> Len(v.d) = 8 /\ (v.g => v.d[1] >= 128)
                   [] OTHER -> TRUE
Forms == \A v \in V : WellFormed(v)
=============================================================================
