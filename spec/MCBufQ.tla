------------------------------- MODULE MCBufQ -------------------------------
(* BufQ together with the place of the records in the ring: every position at which a mark or a record can be cut by
   the end of the block. The edges become scripts for the real queue.                                              *)
EXTENDS BufQ, TLC, Json
CONSTANTS Lens, Spaces, Rooms
VARIABLES begin, op
vars == <<room, q, begin, op>>
R(n) == CHOOSE r \in {"", "aa", "aabb", "aabbcc", "aabbccddeeff0011", "aabbccddeeff001122", "aabbccddeeff00112233445566"} : L(r) = n
Init == \E n \in Rooms : room = n /\ q = <<>> /\ begin = 0 /\ op = [o |-> "create"]
Moved == begin' = (begin + MarkLen + L(Head(q))) % room
Next ==
  \/ \E n \in Lens, ok \in BOOLEAN : /\ Push(R(n), ok) /\ begin' = begin /\ op' = [o |-> "push", n |-> n]
  \/ \E n \in Lens, k \in {0, 1, 9} : k <= n /\ \E ok \in BOOLEAN : Push(R(n), ok) /\ begin' = begin /\ op' = [o |-> "push2", n |-> n, k |-> k]
  \/ \E s \in Spaces : \/ PopNone /\ begin' = begin /\ op' = [o |-> "pop", s |-> s]
                       \/ q # <<>> /\ (Pop(Head(q), s) \/ PopTooLong(s)) /\ Moved /\ op' = [o |-> "pop", s |-> s]
  \/ \E s \in Spaces, k \in {0, 1, 3} : k <= s /\ q # <<>> /\ (Pop(Head(q), s) \/ PopTooLong(s)) /\ Moved /\ op' = [o |-> "pop2", s |-> s, k |-> k]
  \/ \E n \in Lens, b \in BOOLEAN : Full(n, b) /\ begin' = begin /\ op' = [o |-> "full", n |-> n]
Spec == Init /\ [][Next]_<<room, q, begin, op>>
View == <<room, q, begin>>
Emit == PrintT("GEN " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View')]))
\* the records lie one after the other between begin and end, and end never catches up with begin
Laid == Used(q) < room
=============================================================================
