------------------------------- MODULE LruV2 -------------------------------
(* The divided LRU cache as a client sees it. Which keys share a part is not seen, so a key that may have been
   evicted is only possibly there: `ent` holds the keys that may be there, `sure` those that must be. *)
EXTENDS Naturals, FiniteSets, Sequences
VARIABLES cap, ent, sure, now
v2Vars == <<cap, ent, sure, now>>

Least(a, b) == IF a < b THEN a ELSE b
Parts == Least(32, cap)
Floor == cap \div Parts      \* no part is full with fewer keys
V2Init(c) == cap = c /\ ent = << >> /\ sure = {} /\ now = 0
V2Expired(k) == ent[k].ttl # 0 /\ now - ent[k].born > ent[k].ttl
Gone(k) == ent' = [x \in DOMAIN ent \ {k} |-> ent[x]] /\ sure' = sure \ {k}

V2Set(k, v, x) ==
  /\ IF cap = 0 THEN UNCHANGED <<ent, sure>>
     ELSE /\ ent' = [q \in DOMAIN ent \cup {k} |-> IF q = k THEN [v |-> v, born |-> now, ttl |-> x] ELSE ent[q]]
          /\ sure' = IF k \in sure \/ Cardinality(DOMAIN ent \ {k}) < Floor THEN sure \cup {k} ELSE {k}
  /\ UNCHANGED <<cap, now>>
V2Hit(k, v) == k \in DOMAIN ent /\ ~V2Expired(k) /\ ent[k].v = v /\ sure' = sure \cup {k} /\ UNCHANGED <<cap, ent, now>>
V2Miss(k) == /\ k \in DOMAIN ent => (k \notin sure \/ V2Expired(k))
             /\ Gone(k) /\ UNCHANGED <<cap, now>>
V2Del(k) == Gone(k) /\ UNCHANGED <<cap, now>>
V2Clear == ent' = << >> /\ sure' = {} /\ UNCHANGED <<cap, now>>
V2Size(n) == n \in Cardinality(sure)..Least(cap, Cardinality(DOMAIN ent)) /\ UNCHANGED v2Vars
V2Max(n) == n = cap /\ UNCHANGED v2Vars
V2Tick(d) == now' = now + d /\ UNCHANGED <<cap, ent, sure>>
V2Sound == sure \subseteq DOMAIN ent /\ (cap = 0 => ent = << >>)
=============================================================================
