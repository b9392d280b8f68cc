------------------------------- MODULE MCPool -------------------------------
EXTENDS Pool, TLC
CONSTANTS Cons, Workers, Max, N, Errs, Sizes
VARIABLES sent, ended     \* answers that reached a peer: <<c, id>>; requests whose handler is through
vars == <<poolVars, sent, ended>>
Init == PoolInit(Max, Workers, TRUE, 1..Cons) /\ sent = <<>> /\ ended = {}
K == UNCHANGED <<sent, ended>>
RunIt == phase = "new" /\ phase' = "on" /\ UNCHANGED <<max, q, work, con, req, rd, out, told, sent, ended>>
Inside == \/ /\ \/ \E c \in DOMAIN con : con[c].due # <<>> /\ Read(c, Head(con[c].due))
                \/ Offer \/ RefusedTold \/ Undecodable \/ ReadRet
                \/ \E w \in DOMAIN work : TakeIt(w) \/ (work[w].id > 0 /\ Work(w, work[w].id))
                \/ \E c \in DOMAIN con : SockClose(c)
             /\ K
          \/ SentEmpty /\ K
          \/ \E w \in DOMAIN out : \E c \in DOMAIN con : \E i \in Firsts(w, c) : /\ Sent(c, out[w][i].id)
                                                         /\ sent' = Append(sent, <<c, out[w][i].id>>) /\ UNCHANGED ended
\* the handler is the user's: it ends when it wants to
Handler == \E w \in DOMAIN work : /\ work[w].id > 0
                                  /\ \/ \E n \in Sizes, cl \in BOOLEAN : Answer(w, work[w].id, n, cl)
                                     \/ Throw(w, work[w].id)
                                  /\ ended' = ended \cup {work[w].id} /\ UNCHANGED sent
Next == RunIt \/ (\E c \in DOMAIN con : Join(c) /\ K)
        \/ (\E c \in DOMAIN con : con[c].st \in {"open", "closing"} /\ ~con[c].left /\ Leave(c) /\ K)
        \/ (\E c \in DOMAIN con : /\ con[c].st \in {"open", "closing"} /\ ~con[c].left /\ Len(req) < N
                                  /\ (\E g \in (IF Errs THEN {"yes", "no"} ELSE {"yes"}) : Ask(c, Len(req) + 1, g)) /\ K)
        \/ Inside \/ Handler
Spec == Init /\ [][Next]_vars
\* an answer goes to the session that asked, once, and only after its handler ended
ToAsker == \A i \in DOMAIN sent : req[sent[i][2]].c = sent[i][1] /\ sent[i][2] \in ended
Once == \A i, j \in DOMAIN sent : i # j => sent[i][2] # sent[j][2]
\* work is never given to two workers at a time, and what is queued is not being worked on
Excl == /\ \A v, w \in DOMAIN work : v # w /\ work[v].id > 0 => work[v].id # work[w].id
        /\ \A i \in DOMAIN q : q[i] \notin ended /\ \A w \in DOMAIN work : work[w].id # q[i]
\* when nothing is left to do inside, everything the users may expect has happened
Settled == phase = "on" /\ ~ENABLED Inside => CalmOk
BadNever == \A i \in DOMAIN q : req[q[i]].good = "yes"
=============================================================================
