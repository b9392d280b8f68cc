------------------------------ MODULE TraceHttp ------------------------------
(* Recorded uses of CHttpReader, CHttpWriter, the URL coding, dates and string helpers, judged by Http. *)
EXTENDS Http, TraceBase
vars == <<l>>
TInit == l = 1
\* ---- requests. Ev: the bytes, and what the reader says of them
CLENH == CLEN
IMS == <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>
\* a date as Date writes it, of a day this library can tell
IsDate(b) == /\ Len(b) = 29 /\ Digits(SubSeq(b, 6, 7)) /\ Digits(SubSeq(b, 13, 16)) /\ Digits(SubSeq(b, 18, 19)) /\ Digits(SubSeq(b, 21, 22)) /\ Digits(SubSeq(b, 24, 25))
             /\ \E m \in DOMAIN Months : Months[m] = SubSeq(b, 9, 11)
             /\ LET y == ToNum(SubSeq(b, 13, 16)) m == CHOOSE m \in DOMAIN Months : Months[m] = SubSeq(b, 9, 11) d == ToNum(SubSeq(b, 6, 7))
                    yd == FoldLeft(LAMBDA a, x : a + YLen(x), 0, [i \in 1..(y - 1970) |-> 1969 + i])
                    md == FoldLeft(LAMBDA a, x : a + MLen(y, x), 0, [i \in 1..(m - 1) |-> i])
                IN y \in 1970..2039 /\ d \in 1..MLen(y, m)
                   /\ Date([d |-> yd + md + d - 1, s |-> ToNum(SubSeq(b, 18, 19)) * 3600 + ToNum(SubSeq(b, 21, 22)) * 60 + ToNum(SubSeq(b, 24, 25))]) = b
ReqE == /\ IsEvent("Req")
        /\ LET r == Req(Ev.b) IN
           r.ok => /\ Ev.ok
                   /\ Ev.cmd = (IF r.cmd = MGET THEN "GET" ELSE IF r.cmd = MPOST THEN "POST" ELSE "HEAD")
                   /\ Ev.cookie = Get(r.heads, CK, <<>>)
                   /\ LET n == Get(r.heads, CLENH, <<48>>) IN (Digits(n) /\ Len(n) <= 9) => Ev.clen = ToNum(n)
                   /\ Known(r.heads, IMS) => (Get(r.heads, IMS, <<>>) = Date(Ev.ims) \/ ~IsDate(Get(r.heads, IMS, <<>>)))
                   /\ Ev.uri = r.uri /\ Ev.ver = r.ver
                   /\ ~r.multi => Ev.body = r.body
                   /\ \A i \in DOMAIN Ev.heads : (Lower(Ev.heads[i].k) = CT /\ r.multi) \/ Ev.heads[i].v = Get(r.heads, Lower(Ev.heads[i].k), <<>>)
                   /\ \A i \in DOMAIN Ev.cookies : Ev.cookies[i].v = Get(r.cookies, Ev.cookies[i].k, Ev.cookies[i].d)
                   /\ \A i \in DOMAIN Ev.vals : Ev.vals[i].v = Get(r.vals, Ev.vals[i].k, Ev.vals[i].d)
                   /\ \A i \in DOMAIN Ev.nums : LET has == IF Ev.nums[i].c THEN Known(r.cookies, Ev.nums[i].k) ELSE Known(r.vals, Ev.nums[i].k)
                                                    v == IF Ev.nums[i].c THEN Get(r.cookies, Ev.nums[i].k, <<>>) ELSE Get(r.vals, Ev.nums[i].k, <<>>)
                                                    n == IF ~has THEN Ev.nums[i].d ELSE ToNum(v) IN
                        (Digits(v) /\ Len(v) > 9) \/ (has /\ ~Digits(v)) \/ Ev.nums[i].v = IF Ev.nums[i].m = 0 THEN n ELSE IF Ev.nums[i].m = 2 THEN (IF n = 0 THEN 0 ELSE 1) ELSE n % Ev.nums[i].m
                   /\ \A i \in DOMAIN Ev.files : LET f == Get(r.files, Ev.files[i].k, [v |-> <<>>, fn |-> <<>>, ct |-> <<>>]) IN
                        Ev.files[i].v = f.v /\ Ev.files[i].fn = f.fn /\ Ev.files[i].ct = f.ct
                   /\ {Ev.list[i].k : i \in DOMAIN Ev.list} = {r.vals[i].k : i \in DOMAIN r.vals}
                   /\ \A i \in DOMAIN Ev.list : Ev.list[i].v = Get(r.vals, Ev.list[i].k, <<>>)
\* ---- responses
RespE == /\ IsEvent("Resp")
         /\ LET r == Resp(Ev.b)
                want == FoldLeft(LAMBDA z, w : Append(z, [k |-> w.k, v |-> FoldLeft(LAMBDA a, x : a \o (IF "t" \in DOMAIN x THEN Date(x.t) ELSE x.b), <<>>, w.v)]), <<>>, Ev.want)
            IN r.ok /\ Ev.same /\ r.code = Ev.code /\ Says(r, want, Ev.len, Ev.body)
\* ---- codings
EncE == IsEvent("UrlEnc") /\ UrlDec(Ev.b) = Ev.s /\ Coded(Ev.b) /\ \A i \in DOMAIN Ev.b : Free(Ev.b[i]) \/ Ev.b[i] \in {37, 43}
DecE == IsEvent("UrlDec") /\ (Coded(Ev.s) => Ev.b = UrlDec(Ev.s))
DateE == IsEvent("Date") /\ Ev.b = Date(Ev.t)
\* text to time: the other direction
TimeE == IsEvent("Time") /\ (Ev.s = Date(Ev.t) => Ev.r = Ev.t)
\* ---- string helpers

Repl(b, f, r) == LET ps == Split(b, f) IN FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN r ELSE <<>>) \o ps[i], <<>>, [i \in DOMAIN ps |-> i])
White == {32, 9, 10, 13}
RECURSIVE LT(_), RT(_)
LT(b) == IF b # <<>> /\ b[1] \in White THEN LT(Tail(b)) ELSE b
RT(b) == IF b # <<>> /\ b[Len(b)] \in White THEN RT(SubSeq(b, 1, Len(b) - 1)) ELSE b
SplitE == IsEvent("Split") /\ Ev.r = Split(Ev.s, Ev.p)
ReplE == IsEvent("Replace") /\ Ev.r = Repl(Ev.s, Ev.p, Ev.q)
TrimE == IsEvent("Trim") /\ Ev.r = RT(LT(Ev.s))
HostE == IsEvent("HostPort") /\ LET k == Find(Ev.s, <<Ev.c>>, 1) IN Ev.ok = (k # 0) /\ (k # 0 => Ev.h = SubSeq(Ev.s, 1, k - 1) /\ Ev.p = From(Ev.s, k + 1))
MidE == /\ IsEvent("Middle")
        /\ LET a == Find(Ev.s, Ev.p, Ev.from + 1) e == IF a = 0 THEN 0 ELSE Find(Ev.s, Ev.q, a + Len(Ev.p)) IN
           IF e = 0 THEN Ev.pos = -1 ELSE Ev.r = SubSeq(Ev.s, a + Len(Ev.p), e - 1) /\ Ev.pos = e - 1 + Len(Ev.q)
Mid2E == /\ IsEvent("Middle2")
         /\ LET e == IF Ev.from > Len(Ev.s) THEN 0 ELSE Find(Ev.s, Ev.q, Ev.from + 1) IN
            IF e = 0 THEN Ev.pos = -1 ELSE Ev.r = SubSeq(Ev.s, Ev.from + 1, e - 1) /\ Ev.pos = e - 1 + Len(Ev.q)
IpE == IsEvent("Ip") /\ Ev.r = Num(Ev.a[1]) \o <<46>> \o Num(Ev.a[2]) \o <<46>> \o Num(Ev.a[3]) \o <<46>> \o Num(Ev.a[4])
\* the time of day as text, taken somewhere between t and u; k: the same in seconds by the tick counter
Before(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s <= b.s)
Local(t) == LET yd == YearOf(t.d, 1970) md == MonthOf(yd[1], yd[2], 1) IN
            D4(yd[2]) \o <<45>> \o D2(md[2]) \o <<45>> \o D2(md[1] + 1) \o <<32>> \o D2(t.s \div 3600) \o <<58>> \o D2((t.s \div 60) % 60) \o <<58>> \o D2(t.s % 60)
LocalE == /\ IsEvent("Local") /\ Before(Ev.t, Ev.k) /\ Before(Ev.k, Ev.u)
          /\ Len(Ev.b) = 19 /\ LET c == <<Ev.t, Ev.k, Ev.u>> IN \E i \in 1..3 : Local(c[i]) = Ev.b
StrE == IsEvent("Str") /\ Ev.b = IF Ev.a < 0 THEN <<45>> \o Num(-Ev.a) ELSE Num(Ev.a)
TNext == IsEvent("Reset") \/ ReqE \/ RespE \/ EncE \/ DecE \/ DateE \/ TimeE \/ SplitE \/ ReplE \/ TrimE \/ HostE \/ MidE \/ Mid2E \/ IpE \/ LocalE \/ StrE \/ IsEvent("End")
TSpec == TInit /\ [][TNext]_vars
=============================================================================
