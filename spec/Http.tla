------------------------------- MODULE Http -------------------------------
(* HTTP as this library's users know it: what a request says, what a response must say; and the small codings around it
   (form URL encoding, dates). Texts are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ---------------------------------------------------------------- texts
At(b, i, p) == i + Len(p) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(p) - 1) = p
\* the first place from i on where p is, else 0
Find(b, p, i) == LET k == Len(p)
                    m == {j \in i..(Len(b) - k + 1) : b[j] = p[1] /\ (k = 1 \/ SubSeq(b, j, j + k - 1) = p)}
                IN IF m = {} THEN 0 ELSE CHOOSE j \in m : \A x \in m : j <= x
From(b, i) == SubSeq(b, i, Len(b))
\* one pass: from = where the current piece begins, r = the pieces before it
Split(b, p) ==
  LET k == Len(p)
      m == {j \in 1..(Len(b) - k + 1) : b[j] = p[1] /\ (k = 1 \/ SubSeq(b, j, j + k - 1) = p)}
      st == FoldLeft(LAMBDA a, j : IF j < a.from THEN a ELSE [from |-> j + k, r |-> Append(a.r, SubSeq(b, a.from, j - 1))],
                     [from |-> 1, r |-> <<>>], SetToSortSeq(m, <))
  IN Append(st.r, From(b, st.from))
RECURSIVE Ltrim(_), Rtrim(_)
Blank(c) == c \in {32, 9}
Ltrim(b) == IF b # <<>> /\ Blank(b[1]) THEN Ltrim(Tail(b)) ELSE b
Rtrim(b) == IF b # <<>> /\ Blank(b[Len(b)]) THEN Rtrim(SubSeq(b, 1, Len(b) - 1)) ELSE b
Lower(b) == FoldLeft(LAMBDA r, c : Append(r, IF c \in 65..90 THEN c + 32 ELSE c), <<>>, b)
CRLF == <<13, 10>>
Token(b) == b # <<>> /\ \A i \in DOMAIN b : b[i] \in 33..126 /\ b[i] \notin {40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125, 34}
Plain(b) == \A i \in DOMAIN b : b[i] \in 32..126 \/ b[i] >= 128
Clean(b) == Plain(b) /\ (b # <<>> => b[Len(b)] # 32)
Digits(b) == b # <<>> /\ \A i \in DOMAIN b : b[i] \in 48..57
ToNum(b) == FoldLeft(LAMBDA n, c : n * 10 + c - 48, 0, b)
Known(f, k) == \E i \in DOMAIN f : f[i].k = k
Last_(f, k) == f[CHOOSE i \in DOMAIN f : f[i].k = k /\ \A j \in DOMAIN f : f[j].k = k => j <= i].v
Get(f, k, d) == IF Known(f, k) THEN Last_(f, k) ELSE d
\* ---------------------------------------------------------------- form URL coding
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Esc(b, i) == i + 2 <= Len(b) /\ Hex(b[i+1]) >= 0 /\ Hex(b[i+2]) >= 0
Coded(b) == \A i \in DOMAIN b : b[i] = 37 => Esc(b, i)
\* skip = how many characters of an escape are still to come
UrlDec(b) == FoldLeft(LAMBDA a, i : IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
                                    ELSE IF b[i] = 43 THEN [a EXCEPT !.r = Append(@, 32)]
                                    ELSE IF b[i] = 37 THEN [r |-> Append(a.r, Hex(b[i+1]) * 16 + Hex(b[i+2])), skip |-> 2]
                                    ELSE [a EXCEPT !.r = Append(@, b[i])],
                      [r |-> <<>>, skip |-> 0], [i \in DOMAIN b |-> i]).r
Free(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 95}
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
UrlEnc(b) == FoldLeft(LAMBDA r, c : r \o (IF Free(c) THEN <<c>> ELSE IF c = 32 THEN <<43>> ELSE <<37, HexD(c \div 16), HexD(c % 16)>>), <<>>, b)
\* ---------------------------------------------------------------- requests
\* pairs k=v; what has no = says nothing
Pair(t) == LET e == Find(t, <<61>>, 1) IN IF e = 0 THEN <<>> ELSE <<[k |-> SubSeq(t, 1, e - 1), v |-> From(t, e + 1)]>>
Pairs(ts) == FoldLeft(LAMBDA r, t : r \o Pair(t), <<>>, ts)
Form(b) == IF b = <<>> THEN <<>> ELSE Pairs(Split(b, <<38>>))
Decoded(f) == FoldLeft(LAMBDA r, x : Append(r, [k |-> x.k, v |-> UrlDec(x.v)]), <<>>, f)
AllCoded(f) == \A i \in DOMAIN f : Coded(f[i].v)
Head_(l) == LET c == Find(l, <<58>>, 1) IN
            IF c < 2 THEN <<>> ELSE <<[k |-> Lower(SubSeq(l, 1, c - 1)), v |-> Ltrim(From(l, c + 1))]>>
CT == <<99,111,110,116,101,110,116,45,116,121,112,101>>
CK == <<99,111,111,107,105,101>>
MP == <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97,59,32,98,111,117,110,100,97,114,121,61>>
DISP == <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,58,32,102,111,114,109,45,100,97,116,97,59,32,110,97,109,101,61,34>>
FILE == <<34,59,32,102,105,108,101,110,97,109,101,61,34>>
CTH == <<67,111,110,116,101,110,116,45,84,121,112,101,58,32>>
\* one part of a form, without the line break before the next boundary: [ok, k, v, file, fn, ct]
Part(b) ==
  LET bad == [ok |-> FALSE]
      h == Find(b, CRLF \o CRLF, 1)
      ls == IF h = 0 THEN <<>> ELSE Split(SubSeq(b, 1, h - 1), CRLF)
      data == From(b, h + 4)
      q == IF ls = <<>> THEN <<>> ELSE From(ls[1], Len(DISP) + 1)
      f == Find(q, FILE, 1)
      k == IF f = 0 THEN SubSeq(q, 1, Len(q) - 1) ELSE SubSeq(q, 1, f - 1)
      fn == IF f = 0 THEN <<>> ELSE SubSeq(q, f + Len(FILE), Len(q) - 1)
      ct == SelectSeq(ls, LAMBDA l : At(l, 1, CTH))
  IN IF h = 0 \/ ~At(ls[1], 1, DISP) \/ q = <<>> \/ q[Len(q)] # 34 \/ k = <<>> \/ 34 \in ToSet(k) \/ 34 \in ToSet(fn) \/ Len(ct) > 1 THEN bad
     ELSE IF (fn # <<>>) # (ct # <<>>) THEN bad     \* a file has a name and a type
     ELSE [ok |-> TRUE, k |-> k, v |-> data, fn |-> fn, ct |-> IF ct = <<>> THEN <<>> ELSE From(ct[1], Len(CTH) + 1)]
\* the parts of a body for boundary B
Parts(body, B) ==
  LET d == <<45, 45>> \o B
      xs == Split(CRLF \o body, CRLF \o d)     \* before the first, the parts, what follows the last
      n == Len(xs)
      mid == SubSeq(xs, 2, n - 1)
      none == [ok |-> FALSE, p |-> <<>>]
  IN IF n < 2 \/ xs[1] # <<>> \/ ~At(xs[n], 1, <<45, 45>>) THEN none
     ELSE IF \E i \in DOMAIN mid : ~At(mid[i], 1, CRLF) \/ Find(mid[i], d, 1) # 0 THEN none
     ELSE LET ps == FoldLeft(LAMBDA a, x : Append(a, Part(From(x, 3))), <<>>, mid) IN
          IF \A i \in DOMAIN ps : ps[i].ok THEN [ok |-> TRUE, p |-> ps] ELSE none
MGET == <<71, 69, 84>>
MPOST == <<80, 79, 83, 84>>
MHEAD == <<72, 69, 65, 68>>
\* what the request says; ok: it is well-formed as far as this library's users can expect
Req(b) ==
  LET bad == [ok |-> FALSE]
      e == Find(b, CRLF, 1)
      h == Find(b, CRLF \o CRLF, 1)
      w == IF e = 0 THEN <<>> ELSE Split(SubSeq(b, 1, e - 1), <<32>>)
      ls == IF h = 0 \/ h = e THEN <<>> ELSE Split(SubSeq(b, e + 2, h - 1), CRLF)
      hs == FoldLeft(LAMBDA r, l : r \o Head_(l), <<>>, ls)
      body == From(b, h + 4)
  IN IF h = 0 \/ Len(w) # 3 \/ \E i \in 1..Len(w) : w[i] = <<>> THEN bad
     ELSE IF w[1] \notin {MGET, MPOST, MHEAD} \/ Len(hs) # Len(ls) \/ Cardinality({hs[i].k : i \in DOMAIN hs}) # Len(hs) THEN bad
     ELSE IF \E i \in DOMAIN hs : ~Token(hs[i].k) \/ ~Clean(hs[i].v) THEN bad
     ELSE LET q == Find(w[2], <<63>>, 1)
              uri == IF q = 0 THEN w[2] ELSE SubSeq(w[2], 1, q - 1)
              ct == Get(hs, CT, <<>>)
              multi == w[1] = MPOST /\ At(ct, 1, MP) /\ Len(ct) > Len(MP)
              ps == IF multi THEN Parts(body, From(ct, Len(MP) + 1)) ELSE [ok |-> TRUE, p |-> <<>>]
              raw == IF w[1] = MGET THEN (IF q = 0 THEN <<>> ELSE From(w[2], q + 1)) ELSE IF w[1] = MPOST THEN body ELSE <<>>
              vs == IF multi THEN <<>> ELSE Form(raw)
              cs == FoldLeft(LAMBDA a, x : a \o Pair(Ltrim(x)), <<>>, Split(Get(hs, CK, <<>>), <<59>>))
          IN IF ~ps.ok \/ ~AllCoded(vs) \/ ~AllCoded(cs) \/ (w[1] = MHEAD /\ q # 0) \/ (w[1] # MPOST /\ multi) THEN bad
             ELSE [ok |-> TRUE, cmd |-> w[1], uri |-> uri, ver |-> w[3], heads |-> hs, multi |-> multi, body |-> raw, cookies |-> Decoded(cs),
                   vals |-> IF multi THEN FoldLeft(LAMBDA a, p : Append(a, [k |-> p.k, v |-> p.v]), <<>>, ps.p) ELSE Decoded(vs),
                   files |-> FoldLeft(LAMBDA a, p : IF p.fn = <<>> THEN a ELSE Append(a, [k |-> p.k, v |-> p]), <<>>, ps.p)]
\* ---------------------------------------------------------------- dates
\* days since 1 January 1970 to the day, month, year
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE YearOf(_, _), MonthOf(_, _, _)
YLen(y) == IF Leap(y) THEN 366 ELSE 365
YearOf(d, y) == IF d < YLen(y) THEN <<d, y>> ELSE YearOf(d - YLen(y), y + 1)
MonthOf(d, y, m) == IF d < MLen(y, m) THEN <<d, m>> ELSE MonthOf(d - MLen(y, m), y, m + 1)
Days == <<<<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>>>
Months == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
D2(n) == <<48 + n \div 10, 48 + (n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
\* a time: [d |-> days since 1970, s |-> seconds of the day]
Date(t) == LET yd == YearOf(t.d, 1970) md == MonthOf(yd[1], yd[2], 1) IN
           Days[((t.d + 4) % 7) + 1] \o <<44, 32>> \o D2(md[1] + 1) \o <<32>> \o Months[md[2]] \o <<32>> \o D4(yd[2]) \o <<32>>
           \o D2(t.s \div 3600) \o <<58>> \o D2((t.s \div 60) % 60) \o <<58>> \o D2(t.s % 60) \o <<32, 71, 77, 84>>
\* ---------------------------------------------------------------- responses
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN <<48 + n>> ELSE Num(n \div 10) \o <<48 + (n % 10)>>
V11 == <<72,84,84,80,47,49,46,49,32>>
\* [ok, code, heads, body]
Resp(b) ==
  LET bad == [ok |-> FALSE]
      e == Find(b, CRLF, 1)
      h == Find(b, CRLF \o CRLF, 1)
      ls == IF h = 0 \/ h = e THEN <<>> ELSE Split(SubSeq(b, e + 2, h - 1), CRLF)
      hs == FoldLeft(LAMBDA r, l : r \o Head_(l), <<>>, ls)
  IN IF h = 0 \/ ~At(b, 1, V11) \/ e < 14 \/ ~Digits(SubSeq(b, 10, 12)) \/ b[13] # 32 \/ Len(hs) # Len(ls) \/ \E i \in DOMAIN hs : ~Token(hs[i].k) THEN bad
     ELSE [ok |-> TRUE, code |-> ToNum(SubSeq(b, 10, 12)), heads |-> FoldLeft(LAMBDA a, x : Append(a, [k |-> x.k, v |-> Rtrim(x.v)]), <<>>, hs), body |-> From(b, h + 4)]
CLEN == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
\* every head line that was asked for, once, and no other but the length of the body
Says(r, want, len, body) ==
  LET rest == SelectSeq(r.heads, LAMBDA x : x.k # CLEN)
      ln == SelectSeq(r.heads, LAMBDA x : x.k = CLEN)
      cnt(f, x) == Cardinality({i \in DOMAIN f : f[i] = x})
  IN /\ Len(rest) = Len(want) /\ \A i \in DOMAIN want : cnt(rest, want[i]) = cnt(want, want[i])
     /\ Len(ln) <= 1
     /\ IF len # 0 THEN Len(ln) = 1 /\ ln[1].v = Num(len)
        ELSE (body # <<>> => Len(ln) = 1) /\ \A i \in DOMAIN ln : ln[i].v = Num(Len(body))
     /\ r.body = body
=============================================================================
