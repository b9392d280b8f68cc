------------------------------- MODULE MCTask -------------------------------
EXTENDS Task, TLC
CONSTANTS N, Workers, Max
VARIABLES given, taken, ended, refused
vars == <<max, q, work, phase, given, taken, ended, refused>>
Init == TaskInit(Max, Workers) /\ given = <<>> /\ taken = <<>> /\ ended = {} /\ refused = 0
DispatchA == \E ok \in BOOLEAN : /\ Len(given) < N /\ refused < 2 /\ Dispatch(Len(given) + 1, ok)
                                 /\ given' = (IF ok THEN Append(given, Len(given) + 1) ELSE given)
                                 /\ refused' = (IF ok THEN refused ELSE refused + 1) /\ UNCHANGED <<taken, ended>>
RunA == Run /\ UNCHANGED <<given, taken, ended, refused>>
TakeA(w) == Take(w) /\ taken' = Append(taken, Head(q)) /\ UNCHANGED <<given, ended, refused>>
BeginA(w) == work[w].id > 0 /\ Begin(w, work[w].id) /\ UNCHANGED <<given, taken, ended, refused>>
DoneA(w) == Done(w, work[w].id) /\ ended' = ended \cup {work[w].id} /\ UNCHANGED <<given, taken, refused>>
Next == DispatchA \/ RunA \/ \E w \in DOMAIN work : TakeA(w) \/ BeginA(w) \/ DoneA(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(RunA) /\ \A w \in 0..Workers-1 : WF_vars(TakeA(w)) /\ WF_vars(BeginA(w)) /\ WF_vars(DoneA(w))
\* taken in the order given, each once
Order == taken \o q = given
Once == \A i, j \in DOMAIN taken : i # j => taken[i] # taken[j]
EachDone == \A k \in 1..N : (k \in {given[i] : i \in DOMAIN given}) ~> (k \in ended)
=============================================================================
