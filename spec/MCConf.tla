------------------------------- MODULE MCConf -------------------------------
\* All short files over a small alphabet: names and values are trimmed and complete, sections hold, comments say nothing.
EXTENDS Conf, TLC
CONSTANTS Chars, MaxLen
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Chars : t' = Append(t, c)
Spec == Init /\ [][Next]_t
V == Load(<<>>, t)
Trimmed == \A i \in DOMAIN V : LET x == V[i] IN Trim(x.v) = x.v /\ Trim(x.k[2]) = x.k[2] /\ Trim(x.k[1]) = x.k[1] /\ x.k[2] # <<>> /\ Find(x.k[2], <<61>>, 1) = 0
LineEnds == \A i \in DOMAIN V : \A b \in {V[i].k[1], V[i].k[2], V[i].v} : Find(b, <<10>>, 1) = 0
Blanks == Load(<<>>, <<32>> \o t) = V /\ Load(<<>>, t \o <<10, 35, 61>>) = V /\ Load(<<>>, t \o <<10>>) = V
Again == \A k \in {V[i].k : i \in DOMAIN V} : Get(Load(V, t), k, <<0>>) = Get(V, k, <<1>>)
=============================================================================
