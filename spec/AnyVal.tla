------------------------------- MODULE AnyVal -------------------------------
(* CAnyValue: a tree of null, booleans, integers, floats, byte strings, arrays and maps; its binary and JSON encodings.
   Byte strings are sequences of runs <<byte, count>> so that long ones cost nothing; JSON texts are plain byte sequences. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ---------------------------------------------------------------- byte strings
RECURSIVE RLen(_)
RLen(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + RLen(Tail(r))
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a)][1] = b[1][1] THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
             ELSE a \o b
RECURSIVE Take(_, _), Drop(_, _), Flat(_)
Take(r, n) == IF n = 0 \/ r = <<>> THEN <<>> ELSE IF Head(r)[2] >= n THEN <<<<Head(r)[1], n>>>> ELSE <<Head(r)>> \o Take(Tail(r), n - Head(r)[2])
Drop(r, n) == IF n = 0 \/ r = <<>> THEN r ELSE IF Head(r)[2] > n THEN <<<<Head(r)[1], Head(r)[2] - n>>>> \o Tail(r) ELSE Drop(Tail(r), n - Head(r)[2])
\* bytes to runs
Runs(s) == FoldLeft(LAMBDA r, c : Cat(r, <<<<c, 1>>>>), <<>>, s)
\* runs to bytes
Flat(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..Head(r)[2] |-> Head(r)[1]] \o Flat(Tail(r))
Has(r, n) == RLen(r) >= n
\* ---------------------------------------------------------------- values
\* integers: 8 bytes of two's complement, g: is it a negative number
Null == [t |-> "null"]
Bool(b) == [t |-> "bool", b |-> b]
Intg(d, g) == [t |-> "int", d |-> d, g |-> g]
Flt(d) == [t |-> "flt", f |-> d]
Str(s) == [t |-> "str", s |-> s]
Vec(e) == [t |-> "vec", e |-> e]
Map(m) == [t |-> "map", m |-> m]
RECURSIVE Norm(_)
Norm(v) == CASE v.t = "vec" -> Vec([i \in DOMAIN v.e |-> Norm(v.e[i])])
             [] v.t = "map" -> Map({[k |-> v.m[i].k, v |-> Norm(v.m[i].v)] : i \in DOMAIN v.m})
             [] OTHER -> v
Keys(v) == {x.k : x \in v.m}
At(v, k) == (CHOOSE x \in v.m : x.k = k).v
With(v, k, x) == Map({y \in v.m : y.k # k} \cup {[k |-> k, v |-> x]})
Cut(k) == Take(k, 255)    \* a key is at most 255 bytes
\* ---------------------------------------------------------------- the binary encoding
Sub(d, n) == [i \in 1..n |-> d[8 - n + i]]
Ext(b, fill) == [i \in 1..8 |-> IF i <= 8 - Len(b) THEN fill ELSE b[i - 8 + Len(b)]]
Small(d, n, fill) == \A i \in 1..8-n : d[i] = fill
N2(n) == <<n \div 256, n % 256>>
N4(n) == <<0, n \div 65536, (n \div 256) % 256, n % 256>>
RECURSIVE Enc(_), EncAll(_), EncMap(_)
Enc(v) ==
  CASE v.t = "null" -> <<<<12, 1>>>>
    [] v.t = "bool" -> Runs(<<11, IF v.b THEN 1 ELSE 0>>)
    [] v.t = "int" /\ ~v.g -> LET d == v.d IN
         Runs(IF Small(d, 1, 0) THEN <<0>> \o Sub(d, 1) ELSE IF Small(d, 2, 0) THEN <<1>> \o Sub(d, 2)
              ELSE IF Small(d, 4, 0) THEN <<2>> \o Sub(d, 4) ELSE <<3>> \o d)
    [] v.t = "int" /\ v.g -> LET d == v.d f(n) == Small(d, n, 255) /\ d[9 - n] >= 128 IN
         Runs(IF f(1) THEN <<13>> \o Sub(d, 1) ELSE IF f(2) THEN <<14>> \o Sub(d, 2) ELSE IF f(4) THEN <<15>> \o Sub(d, 4) ELSE <<16>> \o d)
    [] v.t = "flt" -> Runs(<<10>> \o v.f)
    [] v.t = "str" -> LET n == RLen(v.s) IN
         Cat(Runs(IF n < 256 THEN <<4, n>> ELSE IF n < 65536 THEN <<5>> \o N2(n) ELSE <<6>> \o N4(n)), v.s)
    [] v.t = "vec" -> Cat(Runs(<<7>> \o N4(Len(v.e))), EncAll(v.e))
    [] v.t = "map" -> Cat(Runs(<<8>> \o N4(Cardinality(v.m))), EncMap(v.m))
EncAll(e) == IF e = <<>> THEN <<>> ELSE Cat(Enc(Head(e)), EncAll(Tail(e)))
EncMap(m) == IF m = {} THEN <<>> ELSE LET x == CHOOSE x \in m : TRUE IN
             Cat(Cat(Cat(<<<<RLen(x.k), 1>>>>, x.k), Enc(x.v)), EncMap(m \ {x}))
\* ---- and back: [ok, v, r] with r what follows
Bad == [ok |-> FALSE, v |-> Null, r |-> <<>>]
Good(v, r) == [ok |-> TRUE, v |-> v, r |-> r]
Num(b) == IF Len(b) = 4 /\ b[1] >= 128 THEN -1 ELSE FoldLeft(LAMBDA n, c : n * 256 + c, 0, b)
RECURSIVE Dec(_), DecVec(_, _, _), DecMap(_, _, _)
DecStr(r, w) == IF ~Has(r, w) THEN Bad ELSE
                LET n == Num(Flat(Take(r, w))) q == Drop(r, w) IN IF n < 0 \/ ~Has(q, n) THEN Bad ELSE Good(Str(Take(q, n)), Drop(q, n))
DecInt(r, w, signed) == IF ~Has(r, w) THEN Bad ELSE
                        LET b == Flat(Take(r, w)) g == signed /\ b[1] >= 128 IN Good(Intg(Ext(b, IF g THEN 255 ELSE 0), g), Drop(r, w))
Dec(r0) ==
  IF r0 = <<>> THEN Bad ELSE
  LET t == r0[1][1] r == Drop(r0, 1) IN
  CASE t = 0 -> DecInt(r, 1, FALSE) [] t = 1 -> DecInt(r, 2, FALSE) [] t = 2 -> DecInt(r, 4, FALSE) [] t = 3 -> DecInt(r, 8, FALSE)
    [] t = 13 -> DecInt(r, 1, TRUE) [] t = 14 -> DecInt(r, 2, TRUE) [] t = 15 -> DecInt(r, 4, TRUE) [] t = 16 -> DecInt(r, 8, TRUE)
    [] t = 4 -> DecStr(r, 1) [] t = 5 -> DecStr(r, 2) [] t = 6 -> DecStr(r, 4)
    [] t = 7 -> IF ~Has(r, 4) THEN Bad ELSE LET n == Num(Flat(Take(r, 4))) IN IF n < 0 \/ n > RLen(r) THEN Bad ELSE DecVec(n, Drop(r, 4), <<>>)
    [] t = 8 -> IF ~Has(r, 4) THEN Bad ELSE LET n == Num(Flat(Take(r, 4))) IN IF n < 0 \/ n > RLen(r) THEN Bad ELSE DecMap(n, Drop(r, 4), Map({}))
    [] t = 10 -> IF ~Has(r, 8) THEN Bad ELSE Good(Flt(Flat(Take(r, 8))), Drop(r, 8))
    [] t = 11 -> IF ~Has(r, 1) THEN Bad ELSE Good(Bool(r[1][1] # 0), Drop(r, 1))
    [] t = 12 -> Good(Null, r)
    [] OTHER -> Bad
DecVec(n, r, acc) == IF n = 0 THEN Good(Vec(acc), r) ELSE LET x == Dec(r) IN IF x.ok THEN DecVec(n - 1, x.r, Append(acc, x.v)) ELSE Bad
DecMap(n, r, acc) ==
  IF n = 0 THEN Good(acc, r) ELSE IF ~Has(r, 1) THEN Bad ELSE
  LET k == r[1][1] q == Drop(r, 1) IN
  IF ~Has(q, k) THEN Bad ELSE
  LET x == Dec(Drop(q, k)) IN IF x.ok THEN DecMap(n - 1, x.r, With(acc, Take(q, k), x.v)) ELSE Bad
Whole(r) == LET x == Dec(r) IN x.ok /\ x.r = <<>>
\* ---------------------------------------------------------------- JSON
\* numbers with a fraction or an exponent: F gives their 8 bytes, a function from text
IsWs(c) == c \in {32, 9, 10, 13}
IsDig(c) == c \in 48..57
RECURSIVE Ws(_, _), Digs(_, _)
Ws(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN Ws(s, i + 1) ELSE i
Digs(s, i) == IF i <= Len(s) /\ IsDig(s[i]) THEN Digs(s, i + 1) ELSE i
Is(s, i, c) == i <= Len(s) /\ s[i] = c
JBad == [ok |-> FALSE, v |-> Null, i |-> 0]
JGood(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
Lit(s, i, w, v) == IF i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w THEN JGood(v, i + Len(w)) ELSE JBad
\* 8 bytes from decimal digits; too large: not ok
MulAdd(d, c0) == FoldRight(LAMBDA b, a : [d |-> <<(b * 10 + a.c) % 256>> \o a.d, c |-> (b * 10 + a.c) \div 256], d, [d |-> <<>>, c |-> c0])
Dec10(t) == FoldLeft(LAMBDA a, c : LET m == MulAdd(a.d, c - 48) IN [ok |-> a.ok /\ m.c = 0, d |-> m.d], [ok |-> TRUE, d |-> [j \in 1..8 |-> 0]], t)
Neg(e) == FoldRight(LAMBDA b, a : [d |-> <<(255 - b + a.c) % 256>> \o a.d, c |-> (255 - b + a.c) \div 256], e, [d |-> <<>>, c |-> 1]).d
Zero == [j \in 1..8 |-> 0]
Fits(d) == d[1] < 128 \/ d = [j \in 1..8 |-> IF j = 1 THEN 128 ELSE 0]
JNum(s, i, F) ==
  LET m == Is(s, i, 45) a == IF m THEN i + 1 ELSE i b == Digs(s, a)
      c == IF Is(s, b, 46) THEN Digs(s, b + 1) ELSE b
      e == c <= Len(s) /\ s[c] \in {69, 101}
      x == IF e /\ c < Len(s) /\ s[c+1] \in {43, 45} THEN c + 2 ELSE c + 1
      z == IF e THEN Digs(s, x) ELSE c
      txt == SubSeq(s, i, z - 1)
  IN IF b = a \/ (Is(s, a, 48) /\ b > a + 1) \/ c = b + 1 \/ (e /\ z = x) THEN JBad
     ELSE IF c > b \/ e THEN (IF txt \in DOMAIN F THEN JGood(Flt(F[txt]), z) ELSE JBad)
     ELSE LET n == Dec10(SubSeq(s, a, b - 1)) IN
          IF ~n.ok \/ (m /\ ~Fits(n.d)) THEN JBad
          ELSE IF m /\ n.d # Zero THEN JGood(Intg(Neg(n.d), TRUE), z) ELSE JGood(Intg(n.d, FALSE), z)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Hex4(s, i) == IF i + 3 > Len(s) \/ \E j \in 0..3 : Hex(s[i + j]) < 0 THEN -1
              ELSE Hex(s[i]) * 4096 + Hex(s[i+1]) * 256 + Hex(s[i+2]) * 16 + Hex(s[i+3])
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Esc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
\* i: after the opening quote
RECURSIVE JStr(_, _, _)
JStr(s, i, acc) ==
  IF i > Len(s) \/ s[i] < 32 THEN JBad
  ELSE IF s[i] = 34 THEN JGood(Str(acc), i + 1)
  ELSE IF s[i] # 92 THEN JStr(s, i + 1, Cat(acc, <<<<s[i], 1>>>>))
  ELSE IF i = Len(s) THEN JBad
  ELSE IF s[i+1] = 117 THEN
       LET u == Hex4(s, i + 2) lo == IF Is(s, i + 6, 92) /\ Is(s, i + 7, 117) THEN Hex4(s, i + 8) ELSE -1 IN
       IF u < 0 THEN JBad
       ELSE IF u \in 55296..56319 THEN (IF lo \in 56320..57343 THEN JStr(s, i + 12, Cat(acc, Runs(Utf8(65536 + (u - 55296) * 1024 + lo - 56320)))) ELSE JBad)
       ELSE IF u \in 56320..57343 THEN JBad
       ELSE JStr(s, i + 6, Cat(acc, Runs(Utf8(u))))
  ELSE IF Esc(s[i+1]) >= 0 THEN JStr(s, i + 2, Cat(acc, <<<<Esc(s[i+1]), 1>>>>)) ELSE JBad
RECURSIVE JVal(_, _, _), JArr(_, _, _, _), JObj(_, _, _, _)
JVal(s, i0, F) ==
  LET i == Ws(s, i0) IN
  IF i > Len(s) THEN JBad
  ELSE CASE s[i] = 34 -> JStr(s, i + 1, <<>>)
         [] s[i] = 123 -> LET j == Ws(s, i + 1) IN IF Is(s, j, 125) THEN JGood(Map({}), j + 1) ELSE JObj(s, j, F, Map({}))
         [] s[i] = 91 -> LET j == Ws(s, i + 1) IN IF Is(s, j, 93) THEN JGood(Vec(<<>>), j + 1) ELSE JArr(s, j, F, <<>>)
         [] s[i] = 116 -> Lit(s, i, <<116, 114, 117, 101>>, Bool(TRUE))
         [] s[i] = 102 -> Lit(s, i, <<102, 97, 108, 115, 101>>, Bool(FALSE))
         [] s[i] = 110 -> Lit(s, i, <<110, 117, 108, 108>>, Null)
         [] s[i] = 45 \/ IsDig(s[i]) -> JNum(s, i, F)
         [] OTHER -> JBad
JArr(s, i, F, acc) ==
  LET x == JVal(s, i, F) IN
  IF ~x.ok THEN JBad ELSE
  LET j == Ws(s, x.i) a == Append(acc, x.v) IN
  IF Is(s, j, 93) THEN JGood(Vec(a), j + 1) ELSE IF Is(s, j, 44) THEN JArr(s, j + 1, F, a) ELSE JBad
JObj(s, i0, F, acc) ==
  LET i == Ws(s, i0) IN
  IF ~Is(s, i, 34) THEN JBad ELSE
  LET k == JStr(s, i + 1, <<>>) IN
  IF ~k.ok THEN JBad ELSE
  LET c == Ws(s, k.i) IN
  IF ~Is(s, c, 58) THEN JBad ELSE
  LET x == JVal(s, c + 1, F) IN
  IF ~x.ok \/ Cut(k.v.s) \in Keys(acc) THEN JBad ELSE   \* a key that comes twice: left open
  LET j == Ws(s, x.i) a == With(acc, Cut(k.v.s), x.v) IN
  IF Is(s, j, 125) THEN JGood(a, j + 1) ELSE IF Is(s, j, 44) THEN JObj(s, j + 1, F, a) ELSE JBad
Json(s, F) == LET x == JVal(s, 1, F) IN IF x.ok /\ Ws(s, x.i) > Len(s) THEN x ELSE JBad
\* ---- one way of writing it
EscOf(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c < 32 -> <<92, 117, 48, 48>> \o <<48 + c \div 16, IF c % 16 < 10 THEN 48 + (c % 16) ELSE 55 + (c % 16)>>
              [] OTHER -> <<c>>
RECURSIVE JEsc(_), JEnc(_, _), JAll(_, _), JMembers(_, _), Txt(_)
JEsc(b) == IF b = <<>> THEN <<>> ELSE EscOf(Head(b)) \o JEsc(Tail(b))
\* decimal digits of 8 bytes
Div10(d) == FoldLeft(LAMBDA a, b : [q |-> Append(a.q, (a.r * 256 + b) \div 10), r |-> (a.r * 256 + b) % 10], [q |-> <<>>, r |-> 0], d)
Txt(d) == LET x == Div10(d) IN (IF x.q = Zero THEN <<>> ELSE Txt(x.q)) \o <<48 + x.r>>
JEnc(v, G) ==
  CASE v.t = "null" -> <<110, 117, 108, 108>>
    [] v.t = "bool" -> IF v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] v.t = "int" -> IF v.g THEN <<45>> \o Txt(Neg(v.d)) ELSE Txt(v.d)
    [] v.t = "flt" -> G[v.f]
    [] v.t = "str" -> <<34>> \o JEsc(Flat(v.s)) \o <<34>>
    [] v.t = "vec" -> <<91>> \o JAll(v.e, G) \o <<93>>
    [] v.t = "map" -> <<123>> \o JMembers(v.m, G) \o <<125>>
JAll(e, G) == IF e = <<>> THEN <<>> ELSE JEnc(Head(e), G) \o (IF Len(e) > 1 THEN <<44>> ELSE <<>>) \o JAll(Tail(e), G)
JMembers(m, G) == IF m = {} THEN <<>> ELSE LET x == CHOOSE x \in m : TRUE IN
                     JEnc(Str(x.k), G) \o <<58>> \o JEnc(x.v, G) \o (IF Cardinality(m) > 1 THEN <<44>> ELSE <<>>) \o JMembers(m \ {x}, G)
\* ---- XML (no floats): maps in the order of their keys
Lt(a, b) == LET x == Flat(a) y == Flat(b) IN
            \E i \in 1..Len(y) : /\ \A j \in 1..i-1 : j <= Len(x) /\ x[j] = y[j]
                                 /\ i > Len(x) \/ x[i] < y[i]
RECURSIVE Xml(_), XmlAll(_), XmlMap(_)
Tag(k) == <<60>> \o k \o <<62>>
EndTag(k) == <<60, 47>> \o k \o <<62>>
LI == <<108, 105>>
Xml(v) == CASE v.t = "str" -> <<60,33,91,67,68,65,84,65,91>> \o Flat(v.s) \o <<93,93,62>>
            [] v.t = "vec" -> XmlAll(v.e)
            [] v.t = "map" -> XmlMap(v.m)
            [] OTHER -> JEnc(v, <<>>)
XmlAll(e) == IF e = <<>> THEN <<>> ELSE Tag(LI) \o Xml(Head(e)) \o EndTag(LI) \o XmlAll(Tail(e))
XmlMap(m) == IF m = {} THEN <<>> ELSE LET x == CHOOSE x \in m : \A y \in m : y = x \/ Lt(x.k, y.k) IN
             Tag(Flat(x.k)) \o Xml(x.v) \o EndTag(Flat(x.k)) \o XmlMap(m \ {x})
\* ---------------------------------------------------------------- the program's view: paths into a value
\* a step is [k |-> key] or [i |-> index]. Going down creates maps and members that are not there; what does not fit fails,
\* keeping what was created. The result: [ok, v (the new value), a (answer)]
IsKey(x) == "k" \in DOMAIN x
Fail(v) == [ok |-> FALSE, v |-> v]
Done(v) == [ok |-> TRUE, v |-> v]
AsMap(v) == IF v.t = "null" THEN Map({}) ELSE v
AsVec(v) == IF v.t = "null" THEN Vec(<<>>) ELSE v
OpSet(w) == [f |-> "set", w |-> w]
Op(o, v) ==
  CASE o.f = "set" -> Done(o.w)
    [] o.f = "touch" -> Done(v)
    [] o.f = "pushb" -> IF AsVec(v).t # "vec" THEN Fail(v) ELSE Done(Vec(Append(AsVec(v).e, o.w)))
    [] o.f = "pushf" -> IF AsVec(v).t # "vec" THEN Fail(v) ELSE Done(Vec(<<o.w>> \o AsVec(v).e))
    [] o.f = "popb" -> Done(Vec(SubSeq(v.e, 1, Len(v.e) - 1)))      \* of a vector that holds something
    [] o.f = "popf" -> Done(Vec(Tail(v.e)))
    [] o.f = "insert" -> IF AsMap(v).t # "map" THEN Fail(v) ELSE Done(With(AsMap(v), Cut(o.k), o.w))
    [] o.f = "erase" -> IF v.t = "map" THEN Done(Map({x \in v.m : x.k # o.k})) ELSE Done(v)
    [] o.f = "clear" -> Done(Null)
RECURSIVE Go(_, _, _)
Go(v, p, o) ==
  IF p = <<>> THEN Op(o, v)
  ELSE LET x == Head(p) IN
       IF IsKey(x) THEN
         LET w == AsMap(v) IN
         IF w.t # "map" THEN Fail(v)
         ELSE LET k == Cut(x.k) r == Go(IF k \in Keys(w) THEN At(w, k) ELSE Null, Tail(p), o) IN [r EXCEPT !.v = With(w, k, r.v)]
       ELSE IF v.t # "vec" \/ x.i < 0 \/ x.i >= Len(v.e) THEN Fail(v)
            ELSE LET r == Go(v.e[x.i + 1], Tail(p), o) IN [r EXCEPT !.v = Vec([v.e EXCEPT ![x.i + 1] = r.v])]
Apply(v, p, o) == Go(v, p, o)
\* looking, without creating: what is not there is null; an index that does not fit fails
RECURSIVE Look(_, _)
Look(v, p) == IF p = <<>> THEN Done(v)
              ELSE LET x == Head(p) IN
                   IF IsKey(x) THEN Look(IF v.t = "map" /\ x.k \in Keys(v) THEN At(v, x.k) ELSE Null, Tail(p))
                   ELSE IF v.t = "vec" /\ x.i \in 0..Len(v.e)-1 THEN Look(v.e[x.i + 1], Tail(p)) ELSE Fail(Null)
Size(v) == CASE v.t = "str" -> RLen(v.s) [] v.t = "vec" -> Len(v.e) [] v.t = "map" -> Cardinality(v.m) [] OTHER -> 0
=============================================================================
