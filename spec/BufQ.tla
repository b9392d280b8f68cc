-------------------------------- MODULE BufQ --------------------------------
(* Queue of variable-length records in a block of memory. A record is a string of hexadecimal digits. *)
EXTENDS Integers, Sequences
VARIABLES room, \* bytes for records in the block
          q
bqVars == <<room, q>>
MarkLen == 8
Reserve == 8
L(r) == Len(r) \div 2
RECURSIVE Used(_)
Used(s) == IF s = <<>> THEN 0 ELSE MarkLen + L(Head(s)) + Used(Tail(s))
Fits(n) == Used(q) + MarkLen + n + Reserve <= room
Create(n) == room' = n /\ q' = <<>>
\* a record of nothing is accepted and is not there
Push(r, ok) == IF L(r) = 0 THEN ok /\ UNCHANGED bqVars
               ELSE /\ ok = Fits(L(r)) /\ q' = (IF ok THEN Append(q, r) ELSE q) /\ UNCHANGED room
PopNone == q = <<>> /\ UNCHANGED bqVars
Pop(r, space) == q # <<>> /\ Head(q) = r /\ L(r) <= space /\ q' = Tail(q) /\ UNCHANGED room
\* a record that does not fit the space given is dropped, and the caller is told
PopTooLong(space) == q # <<>> /\ L(Head(q)) > space /\ q' = Tail(q) /\ UNCHANGED room
Full(n, b) == b = (n > 0 /\ ~Fits(n)) /\ UNCHANGED bqVars
Empty(b) == b = (q = <<>>) /\ UNCHANGED bqVars
Size(n) == n = Len(q) /\ UNCHANGED bqVars
Bounded == Used(q) + (IF q = <<>> THEN 0 ELSE Reserve) <= room
=============================================================================
