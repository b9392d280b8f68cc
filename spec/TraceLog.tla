------------------------------ MODULE TraceLog ------------------------------
(* Recorded uses of CFileLog, CAsyncLog and CLog with the log files read back, judged by Log.
   Sequential: F (a line written to the file), A (a line given to the asynchronous log), Flush, Files.
   Concurrent: Call/Ret of writes, FCall/FRet of flushes, Gone (the log is destroyed), Files. Lines carry the time of the
   write; ids are given in the order of the calls. *)
EXTENDS Log, TraceBase
VARIABLES c, days, buf, w, safe, fc
vars == <<l, c, days, buf, w, safe, fc>>
Cfg == [max |-> 1000000, n |-> 5, cap |-> 0, secs |-> 1, sync |-> FALSE, bad |-> FALSE, mask |-> 15]
TInit == l = 1 /\ c = Cfg /\ days = <<>> /\ buf = <<>> /\ w = <<>> /\ safe = 0 /\ fc = <<>>
ResetE == /\ IsEvent("Reset") /\ c' = [max |-> Ev.max, n |-> Ev.n, cap |-> Ev.cap, secs |-> Ev.secs, sync |-> Ev.sync, bad |-> Ev.bad, mask |-> Ev.mask]
          /\ days' = <<>> /\ buf' = <<>> /\ w' = <<>> /\ safe' = 0 /\ fc' = <<>>
\* ---- sequential. days: sequence of [d, fs]
Day(d) == LET x == SelectSeq(days, LAMBDA y : y.d = d) IN IF x = <<>> THEN <<>> ELSE x[1].fs
SetDay(d, fs) == SelectSeq(days, LAMBDA y : y.d # d) \o <<[d |-> d, fs |-> fs]>>
Line == [id |-> Ev.id, k |-> Ev.k, s |-> Ev.s, t |-> Ev.t]
FE == /\ IsEvent("F") /\ Ev.ok = ~c.bad
      /\ days' = IF Ev.ok THEN SetDay(Ev.d, Put(Day(Ev.d), <<Line>>, c.max, c.n)) ELSE days
      /\ UNCHANGED <<c, buf, w, safe, fc>>
AE == /\ IsEvent("A") /\ (Ev.ok \/ Size(buf) + Ev.s > c.cap)
      /\ buf' = IF Ev.ok THEN Append(buf, Line) ELSE buf
      /\ UNCHANGED <<c, days, w, safe, fc>>
FlushE == /\ IsEvent("Flush") /\ buf # <<>> /\ days' = SetDay(Ev.d, Put(Day(Ev.d), buf, c.max, c.n)) /\ buf' = <<>> /\ UNCHANGED <<c, w, safe, fc>>
\* what is in the files, as the driver reads them: for every file its day, number, size and lines <<id, kind, time>>
Same(f, g) == Len(f.lines) = Len(g) /\ f.size = Size(g) /\ \A i \in DOMAIN g : f.lines[i] = <<g[i].id, g[i].k, g[i].t>>
FilesE == /\ IsEvent("Files")
          /\ \A i \in DOMAIN Ev.files : LET f == Ev.files[i] IN (f.n = 0 /\ f.size = 0 /\ Day(f.d) = <<>>) \/ (f.n + 1 \in DOMAIN Day(f.d) /\ Same(f, Day(f.d)[f.n + 1]))
          /\ \A i \in DOMAIN days : \A j \in DOMAIN days[i].fs : \E k \in DOMAIN Ev.files : Ev.files[k].d = days[i].d /\ Ev.files[k].n = j - 1
          /\ UNCHANGED <<c, days, buf, w, safe, fc>>
\* ---- concurrent
CallE == /\ IsEvent("Call") /\ Ev.id = Len(w) + 1
         /\ w' = Append(w, [s |-> Ev.s, k |-> Ev.k, call |-> l, safe |-> safe, ret |-> 0, ok |-> FALSE, t0 |-> Ev.now, t1 |-> 0]) /\ UNCHANGED <<c, days, buf, safe, fc>>
\* CLog (kinds from 12 on hold the level): a level whose bits the mask does not have is not written
Bit(n, b) == (n \div b) % 2
Wanted(x) == IF x.k < 12 THEN TRUE ELSE \A b \in {1, 2, 4, 8} : Bit((x.k - 10) \div 2, b) = 1 => Bit(c.mask, b) = 1
Taken(x) == x.ret # 0 /\ x.ok /\ Wanted(x)
RetE == /\ IsEvent("Ret") /\ Ev.id \in DOMAIN w /\ w[Ev.id].ret = 0
        \* refused: all that may still have been in memory when it was called leaves no room in one buffer
        /\ Ev.ok \/ c.bad \/ FoldLeft(LAMBDA n, x : IF ~Wanted(x) \/ (x.ret # 0 /\ (~x.ok \/ x.ret < w[Ev.id].safe)) THEN n ELSE n + x.s, 0, w) > c.cap
        /\ c.bad => ~Ev.ok
        /\ w' = [w EXCEPT ![Ev.id].ret = l, ![Ev.id].ok = Ev.ok, ![Ev.id].t1 = Ev.now] /\ UNCHANGED <<c, days, buf, safe, fc>>
FCallE == IsEvent("FCall") /\ fc' = Append(fc, [t |-> Ev.t, l |-> l]) /\ UNCHANGED <<c, days, buf, w, safe>>
\* everything accepted before this flush began is in the file
FRetE == /\ IsEvent("FRet")
         /\ LET f == SelectSeq(fc, LAMBDA x : x.t = Ev.t)[1].l IN safe' = (IF f > safe THEN f ELSE safe)
         /\ fc' = SelectSeq(fc, LAMBDA x : x.t # Ev.t) /\ UNCHANGED <<c, days, buf, w>>
GoneE == IsEvent("Gone") /\ safe' = l /\ UNCHANGED <<c, days, buf, w, fc>>
SnapE == /\ IsEvent("Snap")
         /\ LET ls == Ev.lines IN
            \* whole lines which somebody wrote, with the time of their write
            /\ \A i \in DOMAIN ls : /\ ls[i][1] \in DOMAIN w
                                    /\ LET x == w[ls[i][1]] IN /\ x.ret = 0 \/ x.ok
                                                               /\ Wanted(x)
                                                               /\ x.k = ls[i][2]
                                                               /\ x.k = 0 \/ (ls[i][3] >= x.t0 \div 1000 /\ (x.ret = 0 \/ ls[i][3] <= x.t1 \div 1000))
            /\ Ev.size = FoldLeft(LAMBDA n, x : n + w[x[1]].s, 0, ls)
            \* each once
            /\ Cardinality({ls[i][1] : i \in DOMAIN ls}) = Len(ls)
            \* in the order of writes that did not overlap
            /\ FoldLeft(LAMBDA a, x : IF ~a.ok \/ (w[x[1]].ret # 0 /\ w[x[1]].ret < a.call) THEN [a EXCEPT !.ok = FALSE]
                                      ELSE [a EXCEPT !.call = IF w[x[1]].call > @ THEN w[x[1]].call ELSE @],
                        [ok |-> TRUE, call |-> 0], ls).ok
            \* all that were flushed, or accepted when their time has passed (quiet)
            /\ LET have == {ls[i][1] : i \in DOMAIN ls} IN
               \A id \in DOMAIN w : Taken(w[id]) /\ (c.sync \/ w[id].ret < safe \/ Ev.quiet) => id \in have
         /\ UNCHANGED <<c, days, buf, w, safe, fc>>
TNext == ResetE \/ FE \/ AE \/ FlushE \/ FilesE \/ CallE \/ RetE \/ FCallE \/ FRetE \/ GoneE \/ SnapE \/ (IsEvent("End") /\ UNCHANGED <<c, days, buf, w, safe, fc>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
