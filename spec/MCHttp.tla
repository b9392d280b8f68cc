------------------------------- MODULE MCHttp -------------------------------
\* What is written by one side is read by the other: small requests and responses, the coding, the dates.
EXTENDS Http, TLC
CONSTANTS MaxLen, Chars
VARIABLES s, day
vars == <<s, day>>
Init == s = <<>> /\ day \in {k * 7919 : k \in 0..3}
Next == /\ Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
        /\ day' = (day + 137) % 47000
Spec == Init /\ [][Next]_vars
CodingRoundTrip == Coded(UrlEnc(s)) /\ UrlDec(UrlEnc(s)) = s
K == <<107>>
Line(m, u) == m \o <<32>> \o u \o <<32>> \o <<72, 47, 49>> \o CRLF
AsQuery == LET r == Req(Line(MGET, <<47, 63>> \o K \o <<61>> \o UrlEnc(s)) \o CRLF) IN r.ok /\ r.uri = <<47>> /\ Get(r.vals, K, <<1>>) = s
AsBody == LET r == Req(Line(MPOST, <<47, 63, 120>>) \o CRLF \o <<120, 38>> \o K \o <<61>> \o UrlEnc(s)) IN r.ok /\ r.uri = <<47>> /\ Get(r.vals, K, <<1>>) = s
AsCookie == LET r == Req(Line(MHEAD, <<47>>) \o CK \o <<58, 32, 97, 61, 49, 59, 32>> \o K \o <<61>> \o UrlEnc(s) \o CRLF \o CRLF) IN
            r.ok /\ Get(r.cookies, K, <<1>>) = s /\ Get(r.cookies, <<97>>, <<>>) = <<49>>
B == <<66, 66>>
AsPart == LET r == Req(Line(MPOST, <<47>>) \o CT \o <<58>> \o MP \o B \o CRLF \o CRLF \o <<45, 45>> \o B \o CRLF \o DISP \o K \o <<34>> \o CRLF \o CRLF \o s \o CRLF
                        \o <<45, 45>> \o B \o <<45, 45>>) IN r.ok /\ Get(r.vals, K, <<1>>) = s
AsFile == LET r == Req(Line(MPOST, <<47>>) \o CT \o <<58>> \o MP \o B \o CRLF \o CRLF \o <<45, 45>> \o B \o CRLF \o DISP \o K \o FILE \o <<102>> \o <<34>> \o CRLF
                        \o CTH \o <<116>> \o CRLF \o CRLF \o s \o CRLF \o <<45, 45>> \o B \o <<45, 45>>) IN
          r.ok /\ Get(r.files, K, [v |-> <<>>]).v = s /\ Get(r.files, K, [v |-> <<>>]).fn = <<102>>
AsResponse == LET r == Resp(V11 \o <<50, 48, 48, 32, 79, 75>> \o CRLF \o CT \o <<58, 116>> \o CRLF \o CLEN \o <<58, 32>> \o Num(Len(s)) \o CRLF \o CRLF \o s) IN
              r.ok /\ Says(r, <<[k |-> CT, v |-> <<116>>]>>, 0, s) /\ ~Says(r, <<>>, 0, s) /\ ~Says(r, <<[k |-> CT, v |-> <<116>>]>>, 7777, s)
\* dates: the next day differs, has the next weekday, and 29 characters
Dates == LET a == Date([d |-> day, s |-> 86399]) b == Date([d |-> day + 1, s |-> 0]) IN Len(a) = 29 /\ Len(b) = 29 /\ SubSeq(a, 1, 16) # SubSeq(b, 1, 16)
=============================================================================
