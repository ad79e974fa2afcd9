-------------------------------- MODULE Wire ---------------------------------
(* The wire codec, directed by a type description:                            *)
(*   [k |-> "fixed", n]  n raw bytes (also n-byte little-endian integers)     *)
(*   [k |-> "bool"] [k |-> "bytes"] [k |-> "script"]                          *)
(*   [k |-> "vec", t]  [k |-> "struct", fs]                                   *)
(* Values: byte sequences, BOOLEAN, op sequences, sequences of values.        *)
EXTENDS ScriptCodec

Fix(n)    == [k |-> "fixed", n |-> n]
TBool     == [k |-> "bool"]
TBytes    == [k |-> "bytes"]
TScript   == [k |-> "script"]
TVec(t)   == [k |-> "vec", t |-> t]
TStruct(fs) == [k |-> "struct", fs |-> fs]

OutpointT == TStruct(<<Fix(32), Fix(4)>>)
InputT    == TStruct(<<OutpointT, TScript, Fix(4)>>)
OutputT   == TStruct(<<Fix(8), TScript>>)
TxT       == TStruct(<<Fix(4), TVec(InputT), TVec(OutputT), Fix(4)>>)
PreimageT == TStruct(<<Fix(4), Fix(32), Fix(32), OutpointT, TScript, Fix(8), Fix(4),
                       Fix(32), Fix(4), Fix(4)>>)

\* structures derived in the harness (C19)
InnerT == TStruct(<<Fix(1), TBytes>>)
TypeOf(name) ==
  CASE name \in {"u8", "i8"} -> Fix(1)
    [] name \in {"u16", "i16"} -> Fix(2)
    [] name \in {"u32", "i32"} -> Fix(4)
    [] name \in {"u64", "i64"} -> Fix(8)
    [] name \in {"u128", "i128"} -> Fix(16)
    [] name = "bool" -> TBool
    [] name = "bytes" -> TBytes
    [] name = "script" -> TScript
    [] name \in {"sha1", "ripemd160", "hash160"} -> Fix(20)
    [] name \in {"sha256", "sha256d"} -> Fix(32)
    [] name = "fixed4" -> Fix(4)
    [] name = "vec_u8" -> TVec(Fix(1))
    [] name = "vec_u16" -> TVec(Fix(2))
    [] name = "vec_u64" -> TVec(Fix(8))
    [] name = "vec_bool" -> TVec(TBool)
    [] name = "vec_bytes" -> TVec(TBytes)
    [] name = "vec_script" -> TVec(TScript)
    [] name = "vec_sha256d" -> TVec(Fix(32))
    [] name = "vec_vec_u16" -> TVec(TVec(Fix(2)))
    [] name = "outpoint" -> OutpointT
    [] name = "input" -> InputT
    [] name = "output" -> OutputT
    [] name \in {"tx", "hashedtx"} -> TxT
    [] name = "preimage" -> PreimageT
    [] name = "vec_input" -> TVec(InputT)
    [] name = "vec_output" -> TVec(OutputT)
    [] name = "vec_tx" -> TVec(TxT)
    \* user structs; skipped fields do not appear
    [] name = "s_ints" -> TStruct(<<Fix(1), Fix(2), Fix(4), Fix(8), Fix(16),
                                    Fix(1), Fix(2), Fix(4), Fix(8), Fix(16)>>)
    [] name = "s_skipfirst" -> TStruct(<<Fix(2), TBytes>>)
    [] name = "s_skipmid" -> TStruct(<<Fix(4), Fix(8)>>)
    [] name = "s_skiplast" -> TStruct(<<TScript, Fix(2)>>)
    [] name = "s_skipmany" -> TStruct(<<Fix(1), Fix(2), TBool>>)
    [] name = "s_allskip" -> TStruct(<<>>)
    [] name = "s_one" -> TStruct(<<TBytes>>)
    [] name = "s_inner" -> InnerT
    [] name = "s_nested" -> TStruct(<<InnerT, TVec(InnerT), TStruct(<<Fix(2), TBytes>>), Fix(1)>>)
    [] name = "s_order" -> TStruct(<<Fix(8), Fix(4), Fix(2), Fix(1)>>)
    [] name = "s_mix" -> TStruct(<<Fix(32), TVec(TScript), TBool, TVec(TVec(Fix(2))),
                                   TVec(TBytes), Fix(20)>>)
\* names of the encoded fields of the structures above, skipped ones left out
FieldNames(name) ==
  CASE name = "outpoint" -> <<"tx_hash", "vout">>
    [] name = "output" -> <<"value", "script">>
    [] name = "s_ints" -> <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j">>
    [] name = "s_skipfirst" -> <<"a", "b">>
    [] name = "s_skipmid" -> <<"first", "last">>
    [] name = "s_skiplast" -> <<"s", "n">>
    [] name = "s_skipmany" -> <<"x", "y", "z">>
    [] name = "s_one" -> <<"only">>
    [] name = "s_inner" -> <<"tag", "body">>
    [] name = "s_nested" -> <<"one", "many", "sk", "end">>
    [] name = "s_order" -> <<"zz", "yy", "xx", "ww">>
    [] name = "s_mix" -> <<"h", "scripts", "flag", "grid", "blobs", "k">>
    [] OTHER -> <<>>
\* A structure's encoding is made of parts.  A field of fixed width is one part, with
\* the field's name and encoding; the parts of other fields are merged into the whole.
OnePart(t) == t.k \in {"fixed", "bool"}
-------------------------------------------------------------------------------
CompactSize(n) == IF n <= 252 THEN <<n>>
                  ELSE IF n <= 65535 THEN <<253>> \o LE(n, 2)
                  ELSE <<254>> \o LE(n, 4)
\* the same for a number given as 8 little-endian bytes
CompactSize8(v) ==
  IF \E i \in 5..8 : v[i] # 0 THEN <<255>> \o v
  ELSE IF v[3] # 0 \/ v[4] # 0 THEN <<254>> \o SubSeq(v, 1, 4)
  ELSE IF v[2] # 0 \/ v[1] > 252 THEN <<253>> \o SubSeq(v, 1, 2)
  ELSE <<v[1]>>
\* reads a compact size at p: [ok, v (8 LE bytes), p]
ReadCompact8(b, p) ==
  LET need(k) == p + k <= Len(b)
      val(k) == BigPad(SubSeq(b, p + 1, p + k), 8)
      bad == [ok |-> FALSE, v |-> Zeros(8), p |-> p]
  IN IF p > Len(b) THEN bad
     ELSE CASE b[p] <= 252 -> [ok |-> TRUE, v |-> BigPad(<<b[p]>>, 8), p |-> p + 1]
            [] b[p] = 253 -> IF need(2) THEN [ok |-> TRUE, v |-> val(2), p |-> p + 3] ELSE bad
            [] b[p] = 254 -> IF need(4) THEN [ok |-> TRUE, v |-> val(4), p |-> p + 5] ELSE bad
            [] b[p] = 255 -> IF need(8) THEN [ok |-> TRUE, v |-> val(8), p |-> p + 9] ELSE bad
\* the same as a TLC number; -1 stands for anything of 2^31 or more
ReadCompact(b, p) == LET r == ReadCompact8(b, p)
                     IN [ok |-> r.ok, n |-> IF r.ok THEN FromLE(r.v) ELSE 0, p |-> r.p]

-------------------------------------------------------------------------------
RECURSIVE Enc(_, _)
Enc(t, v) ==
  CASE t.k = "fixed"  -> v
    [] t.k = "bool"   -> IF v THEN <<1>> ELSE <<0>>
    [] t.k = "bytes"  -> CompactSize(Len(v)) \o v
    [] t.k = "script" -> LET s == EncodeOps(v) IN CompactSize(Len(s)) \o s
    [] t.k = "vec"    -> CompactSize(Len(v)) \o CatAll([i \in 1..Len(v) |-> Enc(t.t, v[i])])
    [] t.k = "struct" -> CatAll([i \in 1..Len(t.fs) |-> Enc(t.fs[i], v[i])])

\* the name of the field r#type is "type"; the text of its identifier will do as well
FieldNameOf(f) == IF Len(f) > 2 /\ SubSeq(f, 1, 2) = "r#" THEN {f, SubSeq(f, 3, Len(f))} ELSE {f}
\* from part p on: are the fields from i on there, every field of one part with its name?
RECURSIVE PartsFrom(_, _, _, _, _, _, _), SkipParts(_, _, _)
SkipParts(parts, p, n) == IF n <= 0 THEN [p |-> p, n |-> n] ELSE IF p > Len(parts) THEN [p |-> p, n |-> 1] ELSE SkipParts(parts, p + 1, n - Len(parts[p]))
PartsFrom(fs, v, fields, names, parts, i, p) ==
  IF p <= Len(parts) /\ parts[p] = <<>> THEN PartsFrom(fs, v, fields, names, parts, i, p + 1)
  ELSE IF i > Len(fs) THEN p = Len(parts) + 1
  ELSE IF OnePart(fs[i])
  THEN /\ p <= Len(parts)
       /\ names[p] \in FieldNameOf(fields[i]) /\ parts[p] = Enc(fs[i], v[i])
       /\ PartsFrom(fs, v, fields, names, parts, i + 1, p + 1)
  ELSE LET s == SkipParts(parts, p, Len(Enc(fs[i], v[i])))
       IN s.n = 0 /\ PartsFrom(fs, v, fields, names, parts, i + 1, s.p)
NamedParts(t, v, fields, names, parts) == PartsFrom(t.fs, v, fields, names, parts, 1, 1)

Fail(p) == [ok |-> FALSE, v |-> <<>>, p |-> p]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
MinSize(t) == IF t.k = "fixed" THEN t.n ELSE IF t.k = "struct" THEN Len(t.fs) ELSE 1
RECURSIVE Dec(_, _, _), DecVec(_, _, _, _, _), DecFields(_, _, _, _, _)
Dec(t, b, p) ==
  CASE t.k = "fixed"  -> IF p + t.n - 1 <= Len(b) THEN Good(SubSeq(b, p, p + t.n - 1), p + t.n)
                         ELSE Fail(p)
    [] t.k = "bool"   -> IF p <= Len(b) THEN Good(b[p] # 0, p + 1) ELSE Fail(p)
    [] t.k = "bytes"  -> LET c == ReadCompact(b, p)
                         IN IF ~c.ok \/ c.n = -1 \/ c.n > Len(b) - c.p + 1 THEN Fail(p)
                            ELSE Good(SubSeq(b, c.p, c.p + c.n - 1), c.p + c.n)
    [] t.k = "script" -> LET r == Dec(TBytes, b, p)
                         IN IF ~r.ok THEN Fail(p)
                            ELSE LET o == ParseOps(r.v)
                                 IN IF o.ok THEN Good(o.ops, r.p) ELSE Fail(p)
    [] t.k = "vec"    -> LET c == ReadCompact(b, p)
                         IN IF ~c.ok THEN Fail(p)
                            ELSE IF MinSize(t.t) > 0 /\ (c.n = -1 \/ c.n > Len(b) - c.p + 1) THEN Fail(p)
                            ELSE IF t.t.k = "fixed"
                            THEN IF c.n > (Len(b) - c.p + 1) \div t.t.n THEN Fail(p)
                                 ELSE Good([i \in 1..c.n |-> SubSeq(b, c.p + (i - 1) * t.t.n,
                                                                      c.p + i * t.t.n - 1)],
                                           c.p + c.n * t.t.n)
                            ELSE DecVec(t.t, b, c.p, c.n, <<>>)
    [] t.k = "struct" -> DecFields(t.fs, b, p, 1, <<>>)
DecVec(t, b, p, n, acc) ==
  IF n = 0 THEN Good(acc, p)
  ELSE LET r == Dec(t, b, p)
       IN IF r.ok THEN DecVec(t, b, r.p, n - 1, Append(acc, r.v)) ELSE Fail(p)
DecFields(fs, b, p, i, acc) ==
  IF i > Len(fs) THEN Good(acc, p)
  ELSE LET r == Dec(fs[i], b, p)
       IN IF r.ok THEN DecFields(fs, b, r.p, i + 1, Append(acc, r.v)) ELSE Fail(p)

\* values as compared: the end-of-table sentinel opcode is normalised
RECURSIVE NormV(_, _)
NormV(t, v) ==
  CASE t.k = "script" -> NormOps(v)
    [] t.k = "vec"    -> [i \in 1..Len(v) |-> NormV(t.t, v[i])]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> NormV(t.fs[i], v[i])]
    [] OTHER -> v

\* repeated decoding until the input is used up
RECURSIVE DecAllFrom(_, _, _, _)
DecAllFrom(t, b, p, acc) ==
  IF p > Len(b) THEN Good(acc, p)
  ELSE LET r == Dec(t, b, p)
       IN IF ~r.ok \/ r.p = p THEN Fail(p) ELSE DecAllFrom(t, b, r.p, Append(acc, r.v))
===============================================================================
