-------------------------------- MODULE Task --------------------------------
(* Pool of worker threads behind a bounded queue. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES max, q, work,   \* work[w]: "none", or the task it has taken and whether it has begun
          phase           \* "new", "on", "stopping", "off"
taskVars == <<max, q, work, phase>>
None == [id |-> 0, began |-> FALSE]
TaskInit(m, n) == max = m /\ q = <<>> /\ work = [w \in 0..n-1 |-> None] /\ phase = "new"
Dispatch(id, ok) == ok = (Len(q) < max) /\ q' = (IF ok THEN Append(q, id) ELSE q) /\ UNCHANGED <<max, work, phase>>
Run == phase = "new" /\ phase' = "on" /\ UNCHANGED <<max, q, work>>
\* late: this worker had passed its check when the pool was stopped; each can do so once
Take(w) == /\ phase # "new" /\ q # <<>> /\ work[w] = None
           /\ work' = [work EXCEPT ![w] = [id |-> Head(q), began |-> FALSE]]
           /\ q' = Tail(q) /\ UNCHANGED <<max, phase>>
Begin(w, id) == work[w].id = id /\ ~work[w].began /\ work' = [work EXCEPT ![w].began = TRUE] /\ UNCHANGED <<max, q, phase>>
Done(w, id) == work[w].id = id /\ work[w].began /\ work' = [work EXCEPT ![w] = None] /\ UNCHANGED <<max, q, phase>>
StopCall == phase' = "stopping" /\ UNCHANGED <<max, q, work>>
StopRet == phase = "stopping" /\ phase' = "off" /\ UNCHANGED <<max, q, work>>
\* nobody can do anything: whoever is free has nothing to take
QuietOk == phase = "on" => /\ q # <<>> => \A w \in DOMAIN work : work[w] # None
                           /\ \A w \in DOMAIN work : work[w] # None => work[w].began
Bounded == Len(q) <= max
=============================================================================
