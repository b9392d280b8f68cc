-------------------------------- MODULE Log --------------------------------
(* Log files as their readers know them. A line is a record with its size s; a file a sequence of lines; the files of one
   day are a sequence, the current one first, then _1, _2, ... from newer to older. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Size(f) == FoldLeft(LAMBDA n, x : n + x.s, 0, f)
\* lines b are added at once: to the current file, unless it has reached its limit; of n files the oldest goes
Put(fs, b, max, n) ==
  IF fs = <<>> THEN <<b>>
  ELSE IF Size(fs[1]) < max THEN <<fs[1] \o b>> \o Tail(fs)
  ELSE SubSeq(<<b>> \o fs, 1, IF Len(fs) + 1 < n THEN Len(fs) + 1 ELSE IF n < 1 THEN 1 ELSE n)
\* oldest line first
Kept(fs) == FoldRight(LAMBDA f, a : a \o f, fs, <<>>)
\* the two buffers of the asynchronous log: cur is written to, old waits for the file; fl is on its way to the file
Fits(buf, x, cap) == Size(buf) + x.s <= cap
Accepts(q, x, cap) == Fits(q.cur, x, cap) \/ (q.old = <<>> /\ q.fl = <<>> /\ x.s <= cap)
Accept(q, x, cap) == IF Fits(q.cur, x, cap) THEN [q EXCEPT !.cur = Append(@, x)] ELSE [q EXCEPT !.old = q.cur, !.cur = <<x>>]
TakeFl(q) == IF q.old # <<>> THEN [q EXCEPT !.fl = q.old, !.old = <<>>] ELSE [q EXCEPT !.fl = q.cur, !.cur = <<>>]
InOrder(q) == q.fl \o q.old \o q.cur
=============================================================================
