------------------------------ MODULE TraceWire ------------------------------
(* Recorded calls of the wire codec, judged by Wire.tla.                       *)
EXTENDS Wire, Hashes, TraceBase

SkipsDefault(e, o) == o.skipdef
DecOK(t, b, o) ==      \* o: outcome of decoding b as t with the rest returned
  LET d == Dec(t, b, 1)
  IN IF d.ok THEN /\ o.k = "ok"
                  /\ NormV(t, o.v) = NormV(t, d.v)
                  /\ o.rest = Drop(b, d.p - 1)
                  /\ o.skipdef
     ELSE o.k = "err"
StrictOK(t, b, o) ==
  LET d == Dec(t, b, 1)
  IN IF d.ok /\ d.p = Len(b) + 1 THEN o.k = "ok" /\ NormV(t, o.v) = NormV(t, d.v)
     ELSE o.k = "err"
\* a declaration made up for the check comes with its type and field names
TypeIn(e) == IF "t" \in DOMAIN e THEN e.t ELSE TypeOf(e.ty)
NamesIn(e) == IF "fields" \in DOMAIN e THEN e.fields ELSE FieldNames(e.ty)
SerOK(e, o) ==
  LET t == TypeIn(e) IN
  /\ o.k = "ok"
  /\ o.v = Enc(t, e.v)
  /\ NamesIn(e) # <<>> => NamedParts(t, e.v, NamesIn(e), o.names, o.parts)
RoundTripOK(e, o) ==
  LET t == TypeIn(e) IN
  /\ o.k = "ok" /\ o.r = "ok"
  /\ o.b = Enc(t, e.v)
  /\ o.rest = e.tail
  /\ \* a value of script type may come back in its parsed form only
     LET d == Dec(t, o.b, 1) IN d.ok /\ d.p = Len(o.b) + 1 /\ NormV(t, o.v) = NormV(t, d.v)
  /\ o.skipdef

\* containers of n elements made by a rule, too large to be written out
Le8(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0, 0, 0, 0, 0>>
WideEl(x, i) == (i * 31 + i \div 256 + x) % 256
WideOne(ty, x, i) ==
  CASE ty \in {"vec_u8", "bytes"} -> <<WideEl(x, i)>>
    [] ty = "vec_u16" -> <<WideEl(x, i), WideEl(x, i + 1)>>
    [] ty = "vec_bytes" -> IF i % 2 = 0 THEN <<0>> ELSE <<1, WideEl(x, i)>>
    [] ty = "script" -> <<IF WideEl(x, i) % 2 = 0 THEN 97 ELSE 118>>
    \* outpoint, a script of one operation, sequence
    [] ty = "vec_in" -> LET n4 == SubSeq(Le8(i), 1, 4) IN
         [j \in 1..32 |-> WideEl(x, i)] \o n4 \o <<1, IF WideEl(x, i) % 2 = 0 THEN 97 ELSE 118>> \o n4
WideLen(ty, n) == IF ty = "vec_u16" THEN 2 * n ELSE IF ty = "vec_bytes" THEN n + n \div 2 ELSE IF ty = "vec_in" THEN 42 * n ELSE n
WideOK(e, o) ==
  LET head == CompactSize8(Le8(e.n)) \o CatAll([i \in 1..10 |-> WideOne(e.ty, e.x, i - 1)])
      tail == CatAll([i \in 1..2 |-> WideOne(e.ty, e.x, e.n - 3 + i)])
  IN /\ o.k = "ok"
     /\ o.len = Len(CompactSize8(Le8(e.n))) + WideLen(e.ty, e.n)
     /\ o.head = SubSeq(head, 1, 10)
     /\ o.end = SubSeq(tail, Len(tail) - 1, Len(tail))
     /\ o.back.k = "ok" /\ o.back.same /\ o.back.rest = e.tail
     /\ o.strict /\ o.short

AcceptWire(e) ==
  LET o == e.out IN
  CASE e.op = "ser" -> SerOK(e, o)
    [] e.op = "wide" -> WideOK(e, o)
    [] e.op = "decl" -> o.k = "ok"
    \* there is no codec for it
    [] e.op = "refuse" -> o.k = "nocompile"
    [] e.op = "rt" -> RoundTripOK(e, o)
    [] e.op = "deser" -> /\ DecOK(TypeIn(e), e.b, o.rest) /\ StrictOK(TypeIn(e), e.b, o.strict)
                         /\ MemOK(e.mem, Len(e.b))
    [] e.op = "desertag" -> DecOK(TypeIn(e), e.b, o) /\ MemOK(e.mem, Len(e.b))
    [] e.op = "encall" -> o.k = "ok" /\ o.v = CatAll([i1 \in 1..Len(e.vs) |-> Enc(TypeIn(e), e.vs[i1])])
    [] e.op = "decall" -> LET t == TypeIn(e) d == DecAllFrom(t, e.b, 1, <<>>)
                          IN /\ MemOK(e.mem, Len(e.b))
                             /\ IF d.ok THEN o.k = "ok" /\ NormV(TVec(t), o.v) = NormV(TVec(t), d.v)
                                ELSE o.k = "err"
    [] e.op = "hashtx" -> LET w == Enc(TxT, e.v) IN
                          /\ o.k = "ok" /\ o.raw = w /\ o.hash = Sha256d(w)
                          /\ o.v = e.v /\ o.un = e.v /\ o.into = e.v
    [] e.op = "varint_enc" -> o.k = "ok" /\ o.v = CompactSize8(e.n) /\ o.w = CompactSize8(e.n)
    [] e.op = "varint_dec" -> LET r == ReadCompact8(e.b, 1) IN
                              IF r.ok THEN o.k = "ok" /\ o.v = r.v /\ o.n = r.p - 1
                              ELSE o.k = "err"
DeviationWire(e) == ""
===============================================================================
