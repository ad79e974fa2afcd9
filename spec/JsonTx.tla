-------------------------------- MODULE JsonTx --------------------------------
(* The JSON exchange format for transactions: a table of base64 data, a table of  *)
(* byte arrays referring to data, names and each other, a table of strings, and   *)
(* the transaction with indices into them.  Decode(j) is its meaning.             *)
EXTENDS Serde

\* one entry of the byte array table: number or array of 2, 3 or 4
EntryOf(j) ==
  LET fun == SEnum(FunctionNames) IN
  IF j.t = "num" THEN LET r == HDec(Usize, j) IN
                      IF r.ok THEN Yes([d |-> r.v, f |-> 0, n |-> <<>>, p |-> <<>>]) ELSE No
  ELSE IF j.t # "arr" THEN No
  ELSE IF Len(j.a) \notin 2..4 THEN No
  ELSE LET all == <<Usize, fun, SOpt(Usize), SOpt(SSeq(Usize))>>
           r == HDec(STup(SubSeq(all, 1, Len(j.a))), j) IN
       IF ~r.ok THEN No
       ELSE Yes([d |-> r.v[1], f |-> r.v[2], n |-> IF Len(r.v) >= 3 THEN r.v[3] ELSE <<>>,
                 p |-> IF Len(r.v) = 4 THEN r.v[4] ELSE <<>>])

JOpS == SVariant(<< <<"Code", UInt(1)>>, <<"Invalid", UInt(1)>>,
                    <<"PushByteArray", SStruct(<< <<"array_idx", Usize>>, <<"is_minimal", SBool>> >>)>>,
                    <<"PushBoolean", SBool>>, <<"PushInteger", SInt(4)>> >>)
JNamesS == SOpt(SSeq(SOpt(Usize)))
JTaggedS == SStruct(<< <<"op", JOpS>>, <<"src_file", Usize>>, <<"src_line", UInt(4)>>, <<"src_column", UInt(4)>>,
                       <<"src_code", SSeq(STup(<<UInt(4), Usize>>))>>, <<"pushed_names", JNamesS>>, <<"alt_pushed_names", JNamesS>> >>)
JInputS == SStruct(<< <<"prev_out_hash", Usize>>, <<"prev_out_vout", UInt(4)>>, <<"script", SSeq(JTaggedS)>>,
                      <<"sequence", UInt(4)>>, <<"lock_script", SOpt(SSeq(JTaggedS))>>, <<"value", SOpt(UInt(8))>>,
                      <<"is_p2sh", SOpt(SBool)>>, <<"sig_hash_flags", SOpt(SSeq(FlagsS))>> >>)
JOutputS == SStruct(<< <<"value", UInt(8)>>, <<"script", SSeq(JTaggedS)>> >>)

\* base64 with padding
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
PAD == 61
Base64(t) ==
  LET n == Len(t)
      pads == IF n >= 2 /\ t[n] = PAD /\ t[n - 1] = PAD THEN 2 ELSE IF n >= 1 /\ t[n] = PAD THEN 1 ELSE 0
      core == Take(t, n - pads)
      vals == TLCEval([i \in 1..Len(core) |-> B64Val(core[i])])
  IN IF n % 4 # 0 \/ \E i \in 1..Len(core) : vals[i] = -1 THEN No
     ELSE LET bits == TLCEval(BitsOf(vals, 6)) nb == Len(bits) \div 8 IN
          IF \E i \in (8 * nb + 1)..Len(bits) : bits[i] # 0 THEN No
          ELSE Yes(FromBits(bits, 8))
RECURSIVE B64Text(_)
B64Char(v) == IF v < 26 THEN v + 65 ELSE IF v < 52 THEN v + 71 ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
B64Text(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET x == Dig(b, 1) y == Dig(b, 2) z == Dig(b, 3) n == Len(b) IN
       <<B64Char(x \div 4), B64Char((x % 4) * 16 + y \div 16)>>
       \o (IF n >= 2 THEN <<B64Char((y % 16) * 4 + z \div 64)>> ELSE <<PAD>>)
       \o (IF n >= 3 THEN <<B64Char(z % 64)>> ELSE <<PAD>>)
       \o B64Text(Drop(b, 3))

-------------------------------------------------------------------------------
(* references *)
Index(v) == FromLE(v)                               \* -1: too large to be one
At(s, v) == LET i == Index(v) IN IF i >= 0 /\ i < Len(s) THEN Yes(s[i + 1]) ELSE No
\* D: the decoded tables [b64, entries, strings].  A path through more entries than
\* there are visits one twice.
RECURSIVE Resolve(_, _, _)
Resolve(D, v, fuel) ==
  LET e == At(D.entries, v) IN
  IF ~e.ok \/ fuel = 0 THEN No
  ELSE LET parts == IF e.v.p = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(e.v.p[1]) |-> Resolve(D, e.v.p[1][i], fuel - 1)])
           text == At(D.b64, e.v.d)
           data == IF text.ok THEN Base64(text.v) ELSE No
           name == IF e.v.n = <<>> THEN Yes(<<>>)
                   ELSE LET x == At(D.strings, e.v.n[1]) IN IF x.ok THEN Yes(<<x.v>>) ELSE No
       IN IF ~AllOk(parts) \/ ~data.ok \/ ~name.ok THEN No
          ELSE Yes([d |-> data.v, n |-> name.v, f |-> FunctionNames[e.v.f + 1],
                    p |-> IF e.v.p = <<>> THEN <<>> ELSE <<[i \in 1..Len(parts) |-> parts[i].v]>>])
ArrayAt(D, v) == Resolve(D, v, Len(D.entries))

SignedOf(b) == IF b[4] >= 128 THEN -FromLE(Negate(b, 4)) ELSE FromLE(b)
JOp(k, c, m, a) == [k |-> k, c |-> c, m |-> m, a |-> a]
OpMeaning(D, o) ==
  LET v == o[2] IN
  CASE o[1] = "Code" -> Yes(LET x == NormOp(OpOfByte(v[1])) IN JOp(x.k, x.c, FALSE, <<>>))
    [] o[1] = "Invalid" -> Yes(JOp("inv", v[1], FALSE, <<>>))
    [] o[1] = "PushBoolean" -> Yes(JOp("bool", IF v THEN 1 ELSE 0, FALSE, <<>>))
    [] o[1] = "PushInteger" -> IF v = MININT4 THEN No ELSE Yes(JOp("int", SignedOf(v), FALSE, <<>>))
    [] o[1] = "PushByteArray" -> LET a == ArrayAt(D, v[1]) IN IF a.ok THEN Yes(JOp("push", 0, v[2], <<a.v>>)) ELSE No
NamesMeaning(D, ns) ==
  IF ns = <<>> THEN Yes(<<>>)
  ELSE LET rs == TLCEval([i \in 1..Len(ns[1]) |->
                   IF ns[1][i] = <<>> THEN Yes(<<>>)
                   ELSE LET x == At(D.strings, ns[1][i][1]) IN IF x.ok THEN Yes(<<x.v>>) ELSE No])
       IN LET g == Gather(rs) IN IF g.ok THEN Yes(<<g.v>>) ELSE No
TaggedMeaning(D, w) ==
  LET op == OpMeaning(D, w[1])
      file == At(D.strings, w[2])
      code == Gather(TLCEval([i \in 1..Len(w[5]) |->
                LET x == At(D.strings, w[5][i][2]) IN IF x.ok THEN Yes(<<w[5][i][1], x.v>>) ELSE No]))
      names == NamesMeaning(D, w[6])
      alt == NamesMeaning(D, w[7])
  IN IF op.ok /\ file.ok /\ code.ok /\ names.ok /\ alt.ok
     THEN Yes([o |-> op.v, file |-> file.v, line |-> w[3], col |-> w[4], code |-> code.v, names |-> names.v, alt |-> alt.v])
     ELSE No
ScriptMeaning(D, s) == Gather(TLCEval([i \in 1..Len(s) |-> TaggedMeaning(D, s[i])]))
InputMeaning(D, w) ==
  LET h == ArrayAt(D, w[1])
      s == ScriptMeaning(D, w[3])
      l == IF w[5] = <<>> THEN Yes(<<>>) ELSE LET x == ScriptMeaning(D, w[5][1]) IN IF x.ok THEN Yes(<<x.v>>) ELSE No
  IN IF h.ok /\ s.ok /\ l.ok /\ Len(h.v.d) = 32
     THEN Yes([prev |-> h.v, vout |-> w[2], script |-> s.v, seq |-> w[4], lock |-> l.v, value |-> w[6], p2sh |-> w[7],
               flags |-> IF w[8] = <<>> THEN <<>> ELSE <<[i \in 1..Len(w[8][1]) |-> w[8][1][i][1]]>>])
     ELSE No
OutputMeaning(D, w) == LET s == ScriptMeaning(D, w[2]) IN IF s.ok THEN Yes([value |-> w[1], script |-> s.v]) ELSE No

\* the byte array table is decoded by hand (its entries are untagged)
RawEntries(j) ==
  LET pick(name, i) == IF j.t = "arr" THEN (IF Len(j.a) = 3 THEN Yes(j.a[i]) ELSE No)
                       ELSE IF j.t # "obj" THEN No
                       ELSE LET s == {x \in 1..Len(j.f) : j.f[x][1] = name} IN
                            IF Cardinality(s) = 1 THEN Yes(j.f[CHOOSE x \in s : TRUE][2]) ELSE No
      b == pick("data_b64", 1) e == pick("byte_arrays", 2) s == pick("strings", 3)
  IN IF ~b.ok \/ ~e.ok \/ ~s.ok THEN No
     ELSE LET bb == HDec(SSeq(SStr), b.v) ss == HDec(SSeq(SStr), s.v)
              ee == IF e.v.t = "arr" THEN Gather(TLCEval([i \in 1..Len(e.v.a) |-> EntryOf(e.v.a[i])])) ELSE No
          IN IF bb.ok /\ ss.ok /\ ee.ok THEN Yes([b64 |-> bb.v, entries |-> ee.v, strings |-> ss.v]) ELSE No
JTxFields == << <<"version", SInt(4)>>, <<"inputs", SSeq(JInputS)>>, <<"outputs", SSeq(JOutputS)>>, <<"lock_time", UInt(4)>> >>
DecodeDoc(j) ==
  LET s == IF j.t = "obj" THEN {x \in 1..Len(j.f) : j.f[x][1] = "data"} ELSE {}
      dat == IF j.t = "arr" THEN (IF Len(j.a) = 5 THEN RawEntries(j.a[1]) ELSE No)
             ELSE IF Cardinality(s) = 1 THEN RawEntries(j.f[CHOOSE x \in s : TRUE][2]) ELSE No
      rest == IF j.t = "arr" THEN HDec(SStruct(JTxFields), [t |-> "arr", a |-> Drop(j.a, 1)]) ELSE HDec(SStruct(JTxFields), j)
  IN IF ~dat.ok \/ ~rest.ok THEN No
     ELSE LET D == dat.v w == rest.v
              ins == Gather(TLCEval([i \in 1..Len(w[2]) |-> InputMeaning(D, w[2][i])]))
              outs == Gather(TLCEval([i \in 1..Len(w[3]) |-> OutputMeaning(D, w[3][i])]))
          IN IF ins.ok /\ outs.ok THEN Yes([version |-> w[1], ins |-> ins.v, outs |-> outs.v, lt |-> w[4]]) ELSE No

\* reference chains nested deeper than this are refused
MAXNEST == 512
===============================================================================
