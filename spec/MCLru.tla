------------------------------- MODULE MCLru -------------------------------
(* Exhaustive check of Lru for small constants; with GenOn the edges are printed and become the scripts
   that the driver replays against the real cache. *)
EXTENDS Lru, TLC, Json
CONSTANTS K, V, X, Caps, MaxNow, GenOn
VARIABLE op
vars == <<cap, order, ent, now, op>>

Init == \E c \in Caps : LruInit(c) /\ op = [o |-> "Reset", cap |-> c]
Next ==
  \/ \E k \in K, v \in V, x \in X :
       /\ (SetOld(k, v, x) \/ SetNone \/ \E n \in 0..MaxBatch : SetNew(k, v, x, n))
       /\ op' = [o |-> "set", k |-> k, v |-> v, x |-> x]
  \/ \E k \in K : /\ (GetMiss(k) \/ GetExpired(k) \/ \E v \in V : GetHit(k, v))
                  /\ op' = [o |-> "get", k |-> k]
  \/ \E k \in K : Del(k) /\ op' = [o |-> "del", k |-> k]
  \/ Clear /\ op' = [o |-> "clear"]
  \/ Size(Len(order)) /\ op' = [o |-> "size"]
  \/ now < MaxNow /\ Tick(1) /\ op' = [o |-> "tick", d |-> 1]
Spec == Init /\ [][Next]_vars
View == <<cap, order, ent, now>>
EvictionOrderP == EvictionOrder
\* For the generation the model evicts as the code does (as many as it may).
CodeBatch == (op'.o = "set" /\ op'.k \notin Keys /\ Len(order) >= cap /\ cap > 0)
               => Len(order') = 1 + Len(order) - Min(MaxBatch, Len(order))
Emit == CodeBatch /\ PrintT("GEN " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View')]))
\* recency and lifetime together are never looked at by a client
GetIsLatest == \A k \in Keys : ent[k].v \in V
=============================================================================
