------------------------------- MODULE MCLog -------------------------------
\* The asynchronous log with a flusher, over rotating files: nothing accepted is lost but by the removal of the oldest of n
\* files, nothing is repeated or reordered, and a line is refused only for want of room.
EXTENDS Log, TLC
CONSTANTS Limit, N, Cap, Sizes, MaxLines
VARIABLES q, fs, hist, refused, gone
vars == <<q, fs, hist, refused, gone>>
Init == q = [cur |-> <<>>, old |-> <<>>, fl |-> <<>>] /\ fs = <<>> /\ hist = <<>> /\ refused = 0 /\ gone = 0
Write(s) == LET x == [s |-> s, id |-> Len(hist) + 1] IN
            /\ Len(hist) + refused < MaxLines
            /\ IF Accepts(q, x, Cap) THEN q' = Accept(q, x, Cap) /\ hist' = Append(hist, x) /\ UNCHANGED <<refused, gone, fs>>
               ELSE refused' = refused + 1 /\ UNCHANGED <<q, hist, fs, gone>>
Begin == q.fl = <<>> /\ InOrder(q) # <<>> /\ q' = TakeFl(q) /\ UNCHANGED <<fs, hist, refused, gone>>
End == /\ q.fl # <<>> /\ fs' = Put(fs, q.fl, Limit, N) /\ q' = [q EXCEPT !.fl = <<>>]
       /\ gone' = gone + (Len(Kept(fs)) + Len(q.fl) - Len(Kept(fs'))) /\ UNCHANGED <<hist, refused>>
Next == (\E s \in Sizes : Write(s)) \/ Begin \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(End)
NothingLost == Kept(fs) \o InOrder(q) = SubSeq(hist, gone + 1, Len(hist))
Files == /\ Len(fs) <= (IF N < 1 THEN 1 ELSE N)
         /\ \A i \in 2..Len(fs) : Size(fs[i]) >= Limit
         /\ \A i \in DOMAIN fs : Size(fs[i]) < Limit + Cap
OnlyOldest == gone > 0 => Len(fs) = (IF N < 1 THEN 1 ELSE N)
Bounded == Size(q.cur) <= Cap /\ Size(q.old) <= Cap /\ Size(q.fl) <= Cap
TakesTurns == ~(q.fl # <<>> /\ q.old # <<>>)
RefusedForRoom == [][refused' > refused => \E s \in Sizes : Size(InOrder(q)) + s > Cap]_vars
Flushed == <>[](q.fl \o q.old \o q.cur = <<>>)
=============================================================================
