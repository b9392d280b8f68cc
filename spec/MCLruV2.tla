------------------------------ MODULE MCLruV2 ------------------------------
(* A cache of Parts parts, each an Lru with its own lock, is what LruV2 says: all sequences, any division of the keys. *)
EXTENDS LruV2, Integers, TLC
CONSTANTS K, V, X, Caps, MaxNow, MaxParts, MaxBatch
VARIABLES part,    \* key -> its part
          ord,     \* part -> keys, most recent first
          val      \* key -> entry, of the keys in ord
vars == <<cap, ent, sure, now, part, ord, val>>
P == Least(MaxParts, IF cap = 0 THEN 1 ELSE cap)
Room(p) == (cap \div P) + (IF p = P THEN cap % P ELSE 0)
Wo(s, k) == SelectSeq(s, LAMBDA x : x # k)
In(k) == \E i \in DOMAIN ord[part[k]] : ord[part[k]][i] = k
Total == LET F[p \in 0..P] == IF p = 0 THEN 0 ELSE F[p - 1] + Len(ord[p]) IN F[P]
Put(k, s) == ord' = [ord EXCEPT ![part[k]] = s]
Init == \E c \in Caps : V2Init(c) /\ part \in [K -> 1..P] /\ ord = [p \in 1..P |-> <<>>] /\ val = [k \in K |-> [v |-> 0, born |-> 0, ttl |-> 0]]
Set(k, v, x) ==
  LET o == ord[part[k]] IN
  /\ V2Set(k, v, x) /\ UNCHANGED part
  /\ IF Room(part[k]) = 0 THEN UNCHANGED <<ord, val>>
     ELSE /\ val' = [val EXCEPT ![k] = [v |-> v, born |-> now, ttl |-> x]]
          /\ IF In(k) THEN Put(k, <<k>> \o Wo(o, k))
             ELSE Put(k, <<k>> \o (IF Len(o) < Room(part[k]) THEN o ELSE SubSeq(o, 1, Len(o) - Least(MaxBatch, Len(o)))))
Old(k) == val[k].ttl # 0 /\ now - val[k].born > val[k].ttl
Get(k) == /\ UNCHANGED <<part, val>>
          /\ IF In(k) /\ ~Old(k) THEN V2Hit(k, val[k].v) /\ Put(k, <<k>> \o Wo(ord[part[k]], k))
             ELSE V2Miss(k) /\ Put(k, Wo(ord[part[k]], k))
Del(k) == V2Del(k) /\ UNCHANGED <<part, val>> /\ Put(k, Wo(ord[part[k]], k))
Clear == V2Clear /\ UNCHANGED <<part, val>> /\ ord' = [p \in DOMAIN ord |-> <<>>]
Next == \/ \E k \in K : (\E v \in V, x \in X : Set(k, v, x)) \/ Get(k) \/ Del(k)
        \/ Clear
        \/ now < MaxNow /\ V2Tick(1) /\ UNCHANGED <<part, ord, val>>
Spec == Init /\ [][Next]_vars
\* what LruV2 claims of the parts; an answer of Get that V2Hit or V2Miss does not allow leaves no step, which GetAnswered excludes
Seen == V2Sound /\ (\A k \in sure : In(k)) /\ (\A k \in K : In(k) => k \in DOMAIN ent /\ ent[k] = val[k])
        /\ Total <= cap /\ Total >= Cardinality(sure) /\ Total <= Cardinality(DOMAIN ent)
GetAnswered == \A k \in K : IF In(k) /\ ~Old(k) THEN k \in DOMAIN ent /\ ~V2Expired(k) /\ ent[k].v = val[k].v
                            ELSE k \in DOMAIN ent => (k \notin sure \/ V2Expired(k))
=============================================================================
