--------------------------------- MODULE Serde ---------------------------------
(* The serde data model of the library's types, directed by a type description, *)
(* in its two forms: a JSON value (human readable) and bincode (binary).         *)
(* JSON values are tagged trees:                                                 *)
(*   [t |-> "null"]  [t |-> "bool", b]  [t |-> "arr", a]  [t |-> "obj", f]        *)
(*   [t |-> "str", s, c]  c: UTF-8 bytes, s: the text when it is plain ASCII      *)
(*   [t |-> "num", neg, int, d]  d: magnitude, little-endian bytes               *)
(* Values: integers are fixed-width little-endian (two's complement), options    *)
(* <<>> / <<x>>, structs and tuples sequences, unit enums their index.           *)
EXTENDS Wire, HashTypes, CashAddr

SInt(n)   == [k |-> "int", n |-> n, s |-> TRUE]
UInt(n)   == [k |-> "int", n |-> n, s |-> FALSE]
SBool     == [k |-> "bool"]
SStr      == [k |-> "str"]
SUnit     == [k |-> "unit"]
SOpt(t)   == [k |-> "opt", t |-> t]
SSeq(t)   == [k |-> "seq", t |-> t]
STup(ts)  == [k |-> "tuple", ts |-> ts]
SStruct(fs) == [k |-> "struct", fs |-> fs]         \* fs: << <<name, type>>, ... >>
SEnum(ns) == [k |-> "enum", ns |-> ns]
SVariant(vs) == [k |-> "variant", vs |-> vs]       \* << <<name, payload type>>, ... >>
SBytes    == [k |-> "bytes"]
SHash(n)  == [k |-> "hash", n |-> n]
SFixedBE(n) == [k |-> "fixedbe", n |-> n]
SScript   == [k |-> "script"]
SPubkey   == [k |-> "pubkey"]
SAddress  == [k |-> "address"]
SScriptInt == [k |-> "sint"]                       \* -(2^31-1) .. 2^31-1
SScriptUInt == [k |-> "suint"]
Usize == UInt(8)

FunctionNames == <<"Plain", "Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160", "Num2Bin", "EcdsaSign", "SchnorrSign",
                   "ToDataSig", "UnexpectedSplit", "Reverse">>
FlagsS == SStruct(<< <<"bits", UInt(4)>> >>)
OutpointS == SStruct(<< <<"txHash", SHash(32)>>, <<"vout", UInt(4)>> >>)
InputS == SStruct(<< <<"prevOut", OutpointS>>, <<"script", SScript>>, <<"sequence", UInt(4)>>,
                     <<"lockScript", SOpt(SScript)>>, <<"value", SOpt(UInt(8))>>, <<"isP2sh", SOpt(SBool)>>,
                     <<"sigHashFlags", SOpt(SSeq(FlagsS))>> >>)
OutputS == SStruct(<< <<"value", UInt(8)>>, <<"script", SScript>> >>)
UnhashedS == SStruct(<< <<"version", SInt(4)>>, <<"inputs", SSeq(InputS)>>, <<"outputs", SSeq(OutputS)>>, <<"lockTime", UInt(4)>> >>)
HashedS == SStruct(<< <<"unhashedTx", UnhashedS>>, <<"hash", SHash(32)>>, <<"raw", SBytes>> >>)
UnsignedInputS == SStruct(<< <<"prevOut", OutpointS>>, <<"sequence", UInt(4)>>, <<"value", UInt(8)>> >>)
TokenTypeS == SEnum(<<"Fungible", "Nft1Child", "Nft1Group">>)
ActionS == SEnum(<<"NonSlp", "NonSlpBurn", "SlpParseError", "SlpUnsupportedVersion", "SlpV1Genesis", "SlpV1Mint", "SlpV1Send",
                   "SlpNft1GroupGenesis", "SlpNft1GroupMint", "SlpNft1GroupSend", "SlpNft1UniqueChildGenesis",
                   "SlpNft1UniqueChildSend">>)
TokenS == SStruct(<< <<"amount", UInt(8)>>, <<"is_mint_baton", SBool>>, <<"action", ActionS>> >>)
SlpDataS == SStruct(<< <<"token_id", SHash(32)>> >>)
SlpInS == SStruct(<< <<"index", Usize>>, <<"token", TokenS>>, <<"input", InputS>>, <<"prev_script", SScript>> >>)
SlpOutS == SStruct(<< <<"token", TokenS>>, <<"output", OutputS>> >>)
SlpTxS == SStruct(<< <<"version", SInt(4)>>, <<"inputs", SSeq(SlpInS)>>, <<"outputs", SSeq(SlpOutS)>>, <<"lock_time", UInt(4)>>,
                     <<"slp_data", SOpt(SlpDataS)>>, <<"tx_hash", SHash(32)>> >>)
SlpUtxoS == SStruct(<< <<"input", UnsignedInputS>>, <<"slp_token", TokenS>>, <<"slp_data", SOpt(SlpDataS)>> >>)
TokenMetaS == SStruct(<< <<"ticker", SStr>>, <<"name", SStr>>, <<"document_url", SStr>>, <<"document_hash", SSeq(UInt(1))>>,
                         <<"decimals", UInt(1)>>, <<"slp_token_type", TokenTypeS>> >>)
InputRefS == SStruct(<< <<"phantom", SUnit>>, <<"input_idx", Usize>> >>)
SerdeType(name) ==
  CASE name = "bytes" -> SBytes
    [] name \in {"sha1", "ripemd160", "hash160"} -> SHash(20)
    [] name \in {"sha256", "sha256d", "tokenid"} -> SHash(32)
    [] name = "fixed4" -> SFixedBE(4)
    [] name = "script" -> SScript
    [] name = "pubkey" -> SPubkey
    [] name = "address" -> SAddress
    [] name = "integer" -> SScriptInt
    [] name = "uinteger" -> SScriptUInt
    [] name = "function" -> SEnum(FunctionNames)
    [] name = "flags" -> FlagsS
    [] name = "outpoint" -> OutpointS
    [] name = "input" -> InputS
    [] name = "output" -> OutputS
    [] name = "unhashed" -> UnhashedS
    [] name = "tx" -> HashedS
    [] name = "unsignedinput" -> UnsignedInputS
    [] name = "tokentype" -> TokenTypeS
    [] name = "action" -> ActionS
    [] name = "token" -> TokenS
    [] name = "slpdata" -> SlpDataS
    [] name = "slptx" -> SlpTxS
    [] name = "slpin" -> SlpInS
    [] name = "slpout" -> SlpOutS
    [] name = "slputxo" -> SlpUtxoS
    [] name = "tokenmeta" -> TokenMetaS
    [] name = "inputref" -> InputRefS

-------------------------------------------------------------------------------
No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
Gather(rs) == IF AllOk(rs) THEN Yes([i \in 1..Len(rs) |-> rs[i].v]) ELSE No

\* two's complement negation of an n-byte number
Negate(b, n) == BigPad(BigAdd([i \in 1..n |-> 255 - Dig(b, i)], <<1>>), n)
IntOfJson(j, n, signed) ==
  IF j.t # "num" THEN No
  ELSE IF ~j.int \/ ~BigFits(j.d, n) THEN No
  ELSE LET b == BigPad(j.d, n) IN
       IF j.neg THEN IF signed /\ (b[n] < 128 \/ b = [Zeros(n) EXCEPT ![n] = 128]) THEN Yes(Negate(b, n)) ELSE No
       ELSE IF signed /\ b[n] >= 128 THEN No ELSE Yes(b)
MININT4 == <<0, 0, 0, 128>>
\* the opcode sentinel is normalised
ScriptOfBytes(b) == LET r == Dec(TScript, b, 1) IN IF r.ok /\ r.p = Len(b) + 1 THEN Yes(NormOps(r.v)) ELSE No
Sized(b, n) == IF Len(b) = n THEN Yes(b) ELSE No
HexOfJson(j) == IF j.t # "str" THEN No ELSE LET u == UnHex(j.c) IN IF u.ok THEN Yes(u.b) ELSE No

RECURSIVE HDec(_, _)
HDec(t, j) ==
  CASE t.k = "int" -> IntOfJson(j, t.n, t.s)
    [] t.k = "sint" -> LET r == IntOfJson(j, 4, TRUE) IN IF r.ok /\ r.v # MININT4 THEN r ELSE No
    [] t.k = "suint" -> LET r == IntOfJson(j, 4, TRUE) IN IF r.ok /\ r.v[4] < 128 THEN r ELSE No
    [] t.k = "bool" -> IF j.t = "bool" THEN Yes(j.b) ELSE No
    [] t.k = "str" -> IF j.t = "str" THEN Yes(j.c) ELSE No
    [] t.k = "unit" -> IF j.t = "null" THEN Yes(<<>>) ELSE No
    [] t.k = "opt" -> IF j.t = "null" THEN Yes(<<>>)
                      ELSE LET r == HDec(t.t, j) IN IF r.ok THEN Yes(<<r.v>>) ELSE No
    [] t.k = "seq" -> IF j.t # "arr" THEN No ELSE Gather(TLCEval([i \in 1..Len(j.a) |-> HDec(t.t, j.a[i])]))
    [] t.k = "tuple" -> IF j.t # "arr" THEN No
                        ELSE IF Len(j.a) # Len(t.ts) THEN No
                        ELSE Gather(TLCEval([i \in 1..Len(t.ts) |-> HDec(t.ts[i], j.a[i])]))
    [] t.k = "struct" ->
         IF j.t = "arr"
         THEN IF Len(j.a) # Len(t.fs) THEN No
              ELSE Gather(TLCEval([i \in 1..Len(t.fs) |-> HDec(t.fs[i][2], j.a[i])]))
         ELSE IF j.t # "obj" THEN No
         ELSE LET at(i) == {x \in 1..Len(j.f) : j.f[x][1] = t.fs[i][1]} IN
              IF \E i \in 1..Len(t.fs) : Cardinality(at(i)) > 1 THEN No
              ELSE Gather(TLCEval([i \in 1..Len(t.fs) |->
                     LET s == at(i) IN
                     IF s = {} THEN (IF t.fs[i][2].k = "opt" THEN Yes(<<>>) ELSE No)
                     ELSE HDec(t.fs[i][2], j.f[CHOOSE x \in s : TRUE][2])]))
    [] t.k = "enum" -> IF j.t # "str" THEN No
                       ELSE LET s == {i \in 1..Len(t.ns) : t.ns[i] = j.s} IN
                            IF s = {} THEN No ELSE Yes((CHOOSE i \in s : TRUE) - 1)
    [] t.k = "variant" ->
         IF j.t # "obj" THEN No
         ELSE IF Len(j.f) # 1 THEN No
         ELSE LET s == {i \in 1..Len(t.vs) : t.vs[i][1] = j.f[1][1]} IN
              IF s = {} THEN No
              ELSE LET i == CHOOSE x \in s : TRUE
                       r == HDec(t.vs[i][2], j.f[1][2]) IN IF r.ok THEN Yes(<<t.vs[i][1], r.v>>) ELSE No
    [] t.k = "bytes" -> HexOfJson(j)
    [] t.k = "hash" -> LET r == HexOfJson(j) IN IF r.ok THEN Sized(Rev(r.v), t.n) ELSE No
    [] t.k = "fixedbe" -> LET r == HexOfJson(j) IN IF r.ok THEN Sized(r.v, t.n) ELSE No
    [] t.k = "pubkey" -> LET r == HexOfJson(j) IN IF r.ok THEN Sized(r.v, 33) ELSE No
    [] t.k = "script" -> LET r == HexOfJson(j) IN IF r.ok THEN ScriptOfBytes(r.v) ELSE No
    [] t.k = "address" -> IF j.t # "str" THEN No
                          ELSE LET a == AddrParse(j.c) IN IF a.ok THEN Yes(<<a.prefix, a.ty, a.hash>>) ELSE No

-------------------------------------------------------------------------------
(* binary form *)
RECURSIVE BEnc(_, _)
BEnc(t, v) ==
  CASE t.k \in {"int", "hash", "fixedbe", "sint", "suint"} -> v
    [] t.k = "bool" -> IF v THEN <<1>> ELSE <<0>>
    [] t.k \in {"str", "bytes", "pubkey"} -> LE(Len(v), 8) \o v
    [] t.k = "unit" -> <<>>
    [] t.k = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o BEnc(t.t, v[1])
    [] t.k = "seq" -> LE(Len(v), 8) \o CatAll([i \in 1..Len(v) |-> BEnc(t.t, v[i])])
    [] t.k = "struct" -> CatAll([i \in 1..Len(t.fs) |-> BEnc(t.fs[i][2], v[i])])
    [] t.k = "enum" -> LE(v, 4)
    [] t.k = "script" -> LET b == Enc(TScript, v) IN LE(Len(b), 8) \o b
    [] t.k = "address" -> LE(v[2] \div 8, 4) \o v[3] \o LE(Len(v[1]), 8) \o v[1]

UTF8Cont(b, p, n) == p + n <= Len(b) /\ \A i \in 1..n : b[p + i] \in 128..191
RECURSIVE UTF8From(_, _)
UTF8From(b, p) ==
  IF p > Len(b) THEN TRUE
  ELSE CASE b[p] < 128 -> UTF8From(b, p + 1)
         [] b[p] \in 194..223 -> UTF8Cont(b, p, 1) /\ UTF8From(b, p + 2)
         [] b[p] \in 224..239 -> /\ UTF8Cont(b, p, 2)
                                 /\ b[p] = 224 => b[p + 1] >= 160
                                 /\ b[p] = 237 => b[p + 1] < 160
                                 /\ UTF8From(b, p + 3)
         [] b[p] \in 240..244 -> /\ UTF8Cont(b, p, 3)
                                 /\ b[p] = 240 => b[p + 1] >= 144
                                 /\ b[p] = 244 => b[p + 1] < 144
                                 /\ UTF8From(b, p + 4)
         [] OTHER -> FALSE
ValidUTF8(b) == UTF8From(b, 1)

BLen(b, p) == IF p + 7 > Len(b) THEN -1 ELSE FromLE(SubSeq(b, p, p + 7))
RECURSIVE BDec(_, _, _), BSeq(_, _, _, _, _), BFields(_, _, _, _, _)
BDec(t, b, p) ==
  CASE t.k \in {"int", "hash", "fixedbe"} -> IF p + t.n - 1 <= Len(b) THEN Good(SubSeq(b, p, p + t.n - 1), p + t.n) ELSE Fail(p)
    [] t.k \in {"sint", "suint"} ->
         LET r == BDec(SInt(4), b, p) IN
         IF r.ok /\ r.v # MININT4 /\ (t.k = "suint" => r.v[4] < 128) THEN r ELSE Fail(p)
    [] t.k = "bool" -> IF p <= Len(b) /\ b[p] \in {0, 1} THEN Good(b[p] = 1, p + 1) ELSE Fail(p)
    [] t.k \in {"str", "bytes", "pubkey"} ->
         LET n == BLen(b, p) IN
         IF n = -1 \/ n > Len(b) - p - 7 THEN Fail(p)
         ELSE LET d == SubSeq(b, p + 8, p + 7 + n) IN
              IF t.k = "str" /\ ~ValidUTF8(d) THEN Fail(p)
              ELSE IF t.k = "pubkey" /\ n # 33 THEN Fail(p)
              ELSE Good(d, p + 8 + n)
    [] t.k = "unit" -> Good(<<>>, p)
    [] t.k = "opt" -> IF p > Len(b) \/ b[p] \notin {0, 1} THEN Fail(p)
                      ELSE IF b[p] = 0 THEN Good(<<>>, p + 1)
                      ELSE LET r == BDec(t.t, b, p + 1) IN IF r.ok THEN Good(<<r.v>>, r.p) ELSE Fail(p)
    [] t.k = "seq" -> LET n == BLen(b, p) IN
                      IF n = -1 \/ n > Len(b) - p - 7 THEN Fail(p) ELSE BSeq(t.t, b, p + 8, n, <<>>)
    [] t.k = "struct" -> BFields(t.fs, b, p, 1, <<>>)
    [] t.k = "enum" -> IF p + 3 > Len(b) THEN Fail(p)
                       ELSE LET n == FromLE(SubSeq(b, p, p + 3)) IN
                            IF n \in 0..(Len(t.ns) - 1) THEN Good(n, p + 4) ELSE Fail(p)
    [] t.k = "script" -> LET r == BDec(SBytes, b, p) IN
                         IF ~r.ok THEN Fail(p)
                         ELSE LET s == ScriptOfBytes(r.v) IN IF s.ok THEN Good(s.v, r.p) ELSE Fail(p)
    [] t.k = "address" ->
         LET r == BFields(<< <<"", SEnum(<<"P2PKH", "P2SH">>)>>, <<"", SHash(20)>>, <<"", SStr>> >>, b, p, 1, <<>>) IN
         IF r.ok THEN Good(<<r.v[3], 8 * r.v[1], r.v[2]>>, r.p) ELSE Fail(p)
BSeq(t, b, p, n, acc) ==
  IF n = 0 THEN Good(acc, p)
  ELSE LET r == BDec(t, b, p) IN IF r.ok THEN BSeq(t, b, r.p, n - 1, Append(acc, r.v)) ELSE Fail(p)
BFields(fs, b, p, i, acc) ==
  IF i > Len(fs) THEN Good(acc, p)
  ELSE LET r == BDec(fs[i][2], b, p) IN IF r.ok THEN BFields(fs, b, r.p, i + 1, Append(acc, r.v)) ELSE Fail(p)

\* a value after a round trip: scripts are read back from their bytes
RECURSIVE Canon(_, _)
Canon(t, v) ==
  CASE t.k = "script" -> NormOps(ParseOps(EncodeOps(v)).ops)
    [] t.k = "opt" -> IF v = <<>> THEN v ELSE <<Canon(t.t, v[1])>>
    [] t.k = "seq" -> [i \in 1..Len(v) |-> Canon(t.t, v[i])]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> Canon(t.fs[i][2], v[i])]
    [] OTHER -> v
\* an observed value with the sentinel normalised
RECURSIVE NormS(_, _)
NormS(t, v) ==
  CASE t.k = "script" -> NormOps(v)
    [] t.k = "opt" -> IF v = <<>> THEN v ELSE <<NormS(t.t, v[1])>>
    [] t.k = "seq" -> [i \in 1..Len(v) |-> NormS(t.t, v[i])]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> NormS(t.fs[i][2], v[i])]
    [] OTHER -> v
===============================================================================
