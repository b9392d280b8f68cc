------------------------------ MODULE TraceAny ------------------------------
(* Recorded uses of CAnyValue, judged by AnyVal. *)
EXTENDS AnyVal, TraceBase
VARIABLE reg
vars == <<reg, l>>
Regs == 1..3
TInit == l = 1 /\ reg = [i \in Regs |-> Null]
Reset == IsEvent("Reset") /\ reg' = [i \in Regs |-> Null]
Put(i, v) == reg' = [reg EXCEPT ![i] = v]
\* ---- building and changing
OpE == /\ IsEvent("Op")
       /\ LET t == Apply(reg[Ev.r], Ev.p, [f |-> "touch"])
              have == [reg EXCEPT ![Ev.r] = t.v]     \* a source is looked up once the way to the target is there
              w == IF "src" \in DOMAIN Ev THEN Look(have[Ev.src.r], Ev.src.p) ELSE Done(IF "w" \in DOMAIN Ev THEN Norm(Ev.w) ELSE Null)
              o == IF Ev.f = "insert" THEN [f |-> "insert", k |-> Ev.k, w |-> w.v] ELSE IF Ev.f = "erase" THEN [f |-> "erase", k |-> Ev.k]
                   ELSE [f |-> Ev.f, w |-> w.v]
              r == IF ~t.ok \/ ~w.ok THEN Fail(t.v) ELSE Apply(reg[Ev.r], Ev.p, o)
          IN /\ Ev.ok = r.ok
             /\ Norm(Ev.v) = r.v
             /\ Put(Ev.r, r.v)
\* ---- looking
Wide(b) == [i \in 1..8 |-> IF i = 8 THEN b ELSE 0]
AsNum(v) == CASE v.t = "int" -> v.d [] v.t = "bool" -> Wide(IF v.b THEN 1 ELSE 0) [] OTHER -> Zero
LookE == /\ IsEvent("Look")
         /\ LET r == Look(reg[Ev.r], Ev.p) IN
            /\ Ev.ok = r.ok
            /\ r.ok => LET v == r.v d == AsNum(v) IN
               /\ Norm(Ev.v) = v
               /\ Ev.size = Size(v)
               /\ Ev.i64 = d /\ Ev.u64 = d /\ Ev.i32 = Sub(d, 4) /\ Ev.u32 = Sub(d, 4) /\ Ev.i16 = Sub(d, 2) /\ Ev.i8 = Sub(d, 1)
               /\ Ev.b = (d # Zero)
               /\ Ev.f = (IF v.t = "flt" THEN v.f ELSE Zero)
               /\ Ev.s = (IF v.t = "str" THEN v.s ELSE <<>>)
               /\ Len(Ev.keys) = Cardinality({Ev.keys[i] : i \in DOMAIN Ev.keys})
               /\ {Ev.keys[i] : i \in DOMAIN Ev.keys} = (IF v.t = "map" THEN Keys(v) ELSE {})
               /\ \A i \in DOMAIN Ev.has : Ev.has[i].y = (v.t = "map" /\ Ev.has[i].k \in Keys(v))
         /\ UNCHANGED reg
\* ---- binary
EncE == /\ IsEvent("Enc")
        /\ LET x == Dec(Ev.b) IN x.ok /\ x.r = <<>> /\ x.v = reg[Ev.r]
        /\ UNCHANGED reg
DecE == /\ IsEvent("Dec")
        /\ LET x == Dec(Ev.b) IN Ev.ok = x.ok /\ (x.ok => Norm(Ev.v) = x.v)
        /\ Put(Ev.r, Norm(Ev.v))
\* ---- text
Tab(f) == [x \in {f[i].t : i \in DOMAIN f} |-> f[CHOOSE i \in DOMAIN f : f[i].t = x].d]
JEncE == /\ IsEvent("JEnc")
         /\ LET x == Json(Ev.b, Tab(Ev.F)) IN x.ok /\ x.v = reg[Ev.r]
         /\ UNCHANGED reg
\* what is JSON gives its value; the beginning of a text (its rest: Ev.rest) in an object, array or string is refused
Open(b) == LET i == Ws(b, 1) IN i <= Len(b) /\ b[i] \in {34, 91, 123}
JDecE == /\ IsEvent("JDec")
         /\ LET F == Tab(Ev.F) x == Json(Ev.b, F) IN
            /\ x.ok => Ev.ok /\ Norm(Ev.v) = x.v
            /\ (Ev.rest # <<>> /\ Open(Ev.b) /\ ~x.ok /\ Json(Ev.b \o Ev.rest, F).ok) => ~Ev.ok
         /\ Put(Ev.r, Norm(Ev.v))
XmlE == /\ IsEvent("Xml")
        /\ Ev.b = Ev.head \o Xml(reg[Ev.r]) \o Ev.tail
        /\ UNCHANGED reg
\* ---- a package: header fields and a value
HdrB(h) == <<h.stx>> \o h.len \o h.ver \o h.sid \o h.cmd \o h.seq \o h.fmt \o h.uid \o h.ip \o h.err \o h.flag
PkgE == /\ IsEvent("Pkg")
        /\ LET hd == HdrB(Ev.h) n == Len(hd) x == Dec(Drop(Ev.b, n)) IN
           /\ Flat(Take(Ev.b, n)) = hd
           /\ x.ok /\ x.v = reg[Ev.r] /\ x.r = Runs(Ev.etx)
           /\ Ev.h2 = Ev.h
           /\ Norm(Ev.v) = reg[Ev.r]
        /\ UNCHANGED reg
\* ---- nesting: some depth is always understood, any depth is survived
DeepE == /\ IsEvent("Deep")
         /\ (Ev.n <= 256 /\ Ev.whole) => Ev.ok /\ Ev.d = Ev.n
         /\ ~Ev.whole => ~Ev.ok
         /\ UNCHANGED reg
TNext == Reset \/ OpE \/ LookE \/ EncE \/ DecE \/ JEncE \/ JDecE \/ XmlE \/ PkgE \/ DeepE \/ (IsEvent("End") /\ UNCHANGED reg)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
