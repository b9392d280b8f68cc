-------------------------------- MODULE Lru --------------------------------
(* The LRU cache: one lock, a recency list and a map.                        *)
(* order: keys, most recently used first; ent: key -> value, birth, lifetime *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT MaxBatch   \* the most entries one insertion may evict (CACHE_REMOVE_NUM)

VARIABLES cap, order, ent, now
lruVars == <<cap, order, ent, now>>

Min(a, b) == IF a < b THEN a ELSE b
Keys == DOMAIN ent
Without(s, k) == SelectSeq(s, LAMBDA x : x # k)
Restrict(f, S) == [x \in S |-> f[x]]
SetOf(s) == {s[i] : i \in 1..Len(s)}

LruInit(c) == /\ cap = c /\ order = <<>> /\ ent = << >> /\ now = 0

Expired(k) == ent[k].ttl # 0 /\ now - ent[k].born > ent[k].ttl

\* Overwriting refreshes value, lifetime and recency and evicts nothing.
SetOld(k, v, x) ==
  /\ k \in Keys
  /\ order' = <<k>> \o Without(order, k)
  /\ ent' = [ent EXCEPT ![k] = [v |-> v, born |-> now, ttl |-> x]]
  /\ UNCHANGED <<cap, now>>

\* A new key in a full cache first evicts the n least recently used entries.
SetNew(k, v, x, n) ==
  /\ k \notin Keys /\ cap > 0
  /\ IF Len(order) < cap THEN n = 0 ELSE n \in 1..Min(MaxBatch, Len(order))
  /\ order' = <<k>> \o SubSeq(order, 1, Len(order) - n)
  /\ ent' = [q \in SetOf(order') |-> IF q = k THEN [v |-> v, born |-> now, ttl |-> x] ELSE ent[q]]
  /\ UNCHANGED <<cap, now>>

\* A cache without room takes nothing.
SetNone == cap = 0 /\ UNCHANGED lruVars

GetHit(k, v) ==
  /\ k \in Keys /\ ~Expired(k) /\ ent[k].v = v
  /\ order' = <<k>> \o Without(order, k)
  /\ UNCHANGED <<cap, ent, now>>

GetExpired(k) ==
  /\ k \in Keys /\ Expired(k)
  /\ order' = Without(order, k)
  /\ ent' = Restrict(ent, Keys \ {k})
  /\ UNCHANGED <<cap, now>>

GetMiss(k) == k \notin Keys /\ UNCHANGED lruVars

Del(k) ==
  /\ order' = Without(order, k)
  /\ ent' = Restrict(ent, Keys \ {k})
  /\ UNCHANGED <<cap, now>>

Clear == order' = <<>> /\ ent' = << >> /\ UNCHANGED <<cap, now>>

Size(n) == n = Len(order) /\ UNCHANGED lruVars
MaxSize(n) == n = cap /\ UNCHANGED lruVars

Tick(d) == now' = now + d /\ UNCHANGED <<cap, order, ent>>

\* ---- properties
Bounded == Len(order) <= cap
Consistent == /\ SetOf(order) = Keys
              /\ Cardinality(Keys) = Len(order)
\* whoever leaves because of an insertion was used less recently than whoever stays
EvictionOrder ==
  [][\A k \in Keys \ DOMAIN ent' :
        \A q \in Keys \cap DOMAIN ent' :
           (Len(order') > 0 /\ order'[1] \notin Keys) =>
              (CHOOSE i \in 1..Len(order) : order[i] = q) < (CHOOSE i \in 1..Len(order) : order[i] = k)]_lruVars
=============================================================================
