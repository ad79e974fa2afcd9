----------------------------- MODULE ScriptCodec -----------------------------
(* Script operations, push encoding and the script parser.                    *)
(* An operation is a record [k, c, d, m]:                                     *)
(*   k = "code"  opcode byte c        k = "inv"   unassigned opcode byte c    *)
(*   k = "push"  byte string d, m = written as minimal push                   *)
(*   k = "bool"  c \in {0, 1}         k = "int"   script number c             *)
EXTENDS Bytes

Code(c)    == [k |-> "code", c |-> c, d |-> <<>>, m |-> FALSE]
Inv(c)     == [k |-> "inv",  c |-> c, d |-> <<>>, m |-> FALSE]
Push(d, m) == [k |-> "push", c |-> 0, d |-> d, m |-> m]
PBool(b)   == [k |-> "bool", c |-> IF b THEN 1 ELSE 0, d |-> <<>>, m |-> FALSE]
PInt(i)    == [k |-> "int",  c |-> i, d |-> <<>>, m |-> FALSE]

OP_0 == 0  OP_PUSHDATA1 == 76  OP_PUSHDATA2 == 77  OP_PUSHDATA4 == 78
OP_1NEGATE == 79  OP_1 == 81  OP_16 == 96
OP_RETURN == 106  OP_DUP == 118  OP_EQUAL == 135  OP_EQUALVERIFY == 136
OP_HASH160 == 169  OP_CODESEPARATOR == 171  OP_CHECKSIG == 172

\* bytes that are an assigned opcode (the consensus table at the 2020 upgrade)
AssignedOpcodes == {0} \cup (76..188)
\* 0xbd is the library's end-of-table sentinel: it has no meaning as an opcode,
\* so "opcode 0xbd" and "invalid 0xbd" are the same operation.
SENTINEL == 189
NormOp(o) == IF o.k = "code" /\ o.c = SENTINEL THEN Inv(SENTINEL) ELSE o
NormOps(os) == [i \in 1..Len(os) |-> NormOp(os[i])]
OpOfByte(b) == IF b \in AssignedOpcodes THEN Code(b) ELSE Inv(b)

-------------------------------------------------------------------------------
(* Script numbers: sign-magnitude little endian, shortest form.               *)
MAXINT == 2147483647
ScriptInts == (-MAXINT)..MAXINT
Abs(i) == IF i < 0 THEN -i ELSE i
MagLen(a) == IF a = 0 THEN 0 ELSE IF a < 256 THEN 1 ELSE IF a < 65536 THEN 2
             ELSE IF a < 16777216 THEN 3 ELSE 4
EncodeInt(i) ==
  LET a == Abs(i) n == MagLen(a) mag == LE(a, n) s == IF i < 0 THEN 128 ELSE 0
  IN IF n = 0 THEN <<>>
     ELSE IF mag[n] >= 128 THEN mag \o <<s>>
     ELSE [mag EXCEPT ![n] = @ + s]

\* the number a byte string denotes: [ok, v]; not ok when outside ScriptInts
Denotes(b) ==
  IF b = <<>> THEN [ok |-> TRUE, v |-> 0]
  ELSE LET n == Len(b) neg == b[n] >= 128
           mag == FromLE([b EXCEPT ![n] = @ % 128])
       IN IF mag = -1 THEN [ok |-> FALSE, v |-> 0]
          ELSE [ok |-> TRUE, v |-> IF neg THEN -mag ELSE mag]
IsMinimalInt(b) == LET x == Denotes(b) IN x.ok /\ EncodeInt(x.v) = b

\* the shortest encoding with the same meaning, for byte strings of any length
RECURSIVE MinimallyEncode(_)
MinimallyEncode(b) ==
  IF b = <<>> THEN b
  ELSE LET n == Len(b) last == b[n] IN
    IF last % 128 # 0 THEN b
    ELSE IF n = 1 THEN <<>>
    ELSE IF b[n - 1] >= 128 THEN b
    ELSE MinimallyEncode([SubSeq(b, 1, n - 1) EXCEPT ![n - 1] = @ + last])

-------------------------------------------------------------------------------
(* Push encoding.                                                             *)
LenPrefix(n) == IF n <= 75 THEN <<n>>
                ELSE IF n <= 255 THEN <<OP_PUSHDATA1, n>>
                ELSE IF n <= 65535 THEN <<OP_PUSHDATA2>> \o LE(n, 2)
                ELSE <<OP_PUSHDATA4>> \o LE(n, 4)
SmallPush(d) == IF d = <<>> THEN <<OP_0>>
                ELSE IF Len(d) = 1 /\ d[1] >= 1 /\ d[1] <= 16 THEN <<80 + d[1]>>
                ELSE IF d = <<129>> THEN <<OP_1NEGATE>>
                ELSE <<>>
EncodePush(d, minimal) ==
  IF minimal /\ SmallPush(d) # <<>> THEN SmallPush(d)
  ELSE IF d = <<>> THEN <<OP_PUSHDATA1, 0>>
  ELSE LenPrefix(Len(d)) \o d
EncodeOp(o) ==
  CASE o.k = "code" -> <<o.c>>
    [] o.k = "inv"  -> <<o.c>>
    [] o.k = "bool" -> IF o.c = 1 THEN <<OP_1>> ELSE <<OP_0>>
    [] o.k = "int"  -> IF o.c = -1 THEN <<OP_1NEGATE>>
                       ELSE IF o.c = 0 THEN <<OP_0>>
                       ELSE IF o.c >= 1 /\ o.c <= 16 THEN <<80 + o.c>>
                       ELSE EncodePush(EncodeInt(o.c), TRUE)
    [] o.k = "push" -> EncodePush(o.d, o.m)
EncodeOps(os) == CatAll([i \in 1..Len(os) |-> EncodeOp(os[i])])

\* the script number an operation pushes: [ok, v]
ToInteger(o) ==
  CASE o.k = "int"  -> [ok |-> TRUE, v |-> o.c]
    [] o.k = "bool" -> [ok |-> TRUE, v |-> o.c]
    [] o.k = "code" -> IF o.c = OP_0 THEN [ok |-> TRUE, v |-> 0]
                       ELSE IF o.c = OP_1NEGATE THEN [ok |-> TRUE, v |-> -1]
                       ELSE IF o.c \in OP_1..OP_16 THEN [ok |-> TRUE, v |-> o.c - 80]
                       ELSE [ok |-> FALSE, v |-> 0]
    [] o.k = "inv"  -> [ok |-> FALSE, v |-> 0]
    [] o.k = "push" -> Denotes(o.d)

-------------------------------------------------------------------------------
(* The parser, one operation per step.  P(b, p) looks at position p (1-based) *)
(* and gives [st, op, p]: st = "op" (operation, next position), "err", "end". *)
FirstByteMinimal(d) == EncodePush(d, TRUE)[1]
ParsePush(b, p, first, hdr, n) ==   \* n data bytes start at p + hdr; n = -1: huge
  IF n = -1 \/ n > Len(b) - (p + hdr) + 1 THEN [st |-> "err", op |-> Code(0), p |-> p]
  ELSE LET d == SubSeq(b, p + hdr, p + hdr + n - 1)
       IN [st |-> "op", op |-> Push(d, FirstByteMinimal(d) = first), p |-> p + hdr + n]
ParseStep(b, p) ==
  IF p > Len(b) THEN [st |-> "end", op |-> Code(0), p |-> p]
  ELSE LET x == b[p]
           lenbytes(k) == IF p + k > Len(b) THEN -1 ELSE FromLE(SubSeq(b, p + 1, p + k))
       IN CASE x = 0 -> [st |-> "op", op |-> Code(0), p |-> p + 1]
            [] x \in 1..75 -> ParsePush(b, p, x, 1, x)
            [] x = OP_PUSHDATA1 -> ParsePush(b, p, x, 2, lenbytes(1))
            [] x = OP_PUSHDATA2 -> ParsePush(b, p, x, 3, lenbytes(2))
            [] x = OP_PUSHDATA4 -> ParsePush(b, p, x, 5, lenbytes(4))
            [] OTHER -> [st |-> "op", op |-> OpOfByte(x), p |-> p + 1]
RECURSIVE ParseFrom(_, _, _)
ParseFrom(b, p, acc) ==
  LET s == ParseStep(b, p)
  IN CASE s.st = "end" -> [ok |-> TRUE, ops |-> acc]
       [] s.st = "err" -> [ok |-> FALSE, ops |-> <<>>]
       [] s.st = "op"  -> ParseFrom(b, s.p, Append(acc, s.op))
ParseOps(b) == ParseFrom(b, 1, <<>>)

(* A push written with a longer length prefix than needed cannot be expressed *)
(* by the two push forms an operation remembers (named deviation, see         *)
(* known-findings): such a script re-serialises to a shorter one.             *)
Representable(b) == LET r == ParseOps(b) IN r.ok => EncodeOps(r.ops) = b
===============================================================================
