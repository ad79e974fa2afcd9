--------------------------------- MODULE Types ---------------------------------
(* Typed values as script data; relative lock times; the text form of operations; *)
(* what the preimages of a transaction record about themselves.                   *)
(*   typed value  [t |-> "I", v |-> number]  [t |-> "B", v |-> boolean]             *)
(*                [t |-> "A", v |-> annotated byte array]                           *)
(*   data type    [t |-> "I" | "B" | "A", n |-> <<>> or <<length>>]                 *)
EXTENDS HashTypes, OpcodeTable, Sighash

IntV(i) == [t |-> "I", v |-> i]
BoolV(b) == [t |-> "B", v |-> b]
BytesV(a) == [t |-> "A", v |-> a]
PushOf(x) == CASE x.t = "I" -> PInt(x.v) [] x.t = "B" -> PBool(x.v) [] x.t = "A" -> Push(x.v.d, TRUE)
\* the stack element an operation leaves
Element(o) == CASE o.k = "int" -> EncodeInt(o.c) [] o.k = "bool" -> (IF o.c = 1 THEN <<1>> ELSE <<>>) [] o.k = "push" -> o.d
\* a declared type is true of the value; fixed: the type has values of one length only, and says so
TypeTrue(dt, x, fixed) ==
  /\ dt.t = x.t
  /\ x.t = "A" => dt.n \in (IF fixed THEN {} ELSE {<<>>}) \cup {<<Len(x.v.d)>>}
  /\ x.t # "A" => dt.n = <<>>

-------------------------------------------------------------------------------
(* Relative lock times (BIP 68): bit 31 disables, bit 22 selects units of 512     *)
(* seconds, the low 16 bits are the amount.                                       *)
Relative(kind, n) == <<n % 256, n \div 256, IF kind = "seconds" THEN 64 ELSE 0, 0>>
\* what a sequence number asks for
RelativeMeaning(seq) ==
  IF seq[4] >= 128 THEN <<"none", 0>>
  ELSE <<IF (seq[3] \div 64) % 2 = 1 THEN "seconds" ELSE "blocks", seq[1] + 256 * seq[2]>>

-------------------------------------------------------------------------------
(* Text of operations. *)
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(b) == HexDigits[1 + (b \div 16)] \o HexDigits[1 + (b % 16)]
HexOf(bs) == FoldLeft(LAMBDA acc, b : acc \o HexByte(b), "", bs)
TextOf(o) ==
  CASE o.k = "code" -> NameOf[o.c]
    [] o.k = "inv"  -> HexByte(o.c)
    [] o.k = "push" -> "0x" \o HexOf(o.d)
    [] o.k = "bool" -> IF o.c = 1 THEN "OP_TRUE" ELSE "OP_FALSE"
    [] o.k = "int"  -> ToString(o.c)
TextsOf(ops) == [i \in 1..Len(ops) |-> TextOf(ops[i])]
\* equal as operations: what is pushed, not how the push is written
SameOp(a, b) == a.k = b.k /\ a.c = b.c /\ a.d = b.d

-------------------------------------------------------------------------------
(* The script code of the n-th code separator (counting from 0): what follows it. *)
RECURSIVE SeparatorAt(_, _, _)
SeparatorAt(ops, j, n) == IF j > Len(ops) THEN 0
                          ELSE IF ops[j] = Code(OP_CODESEPARATOR) THEN (IF n = 0 THEN j ELSE SeparatorAt(ops, j + 1, n - 1))
                          ELSE SeparatorAt(ops, j + 1, n)
HasSeparator(ops, n) == SeparatorAt(ops, 1, n) # 0
ScriptCodeOf(ops, n) == Drop(ops, SeparatorAt(ops, 1, n))

-------------------------------------------------------------------------------
\* h records that it is the double SHA-256 of m
Commits(h, m) == /\ h.d = Sha256d(m) /\ h.f = "Hash256" /\ Consistent(h)
                 /\ h.p # <<>> /\ Len(h.p[1]) = 1 /\ h.p[1][1].d = m
CommitsOrZero(h, m) == IF m = <<>> THEN h.d = Hash0 /\ Consistent(h) ELSE Commits(h, m[1])
\* the message behind each of the three hashes of a preimage: <<>> where the field is zero
PrevoutsBehind(t, f) == IF AnyoneCanPay(f) THEN <<>> ELSE <<AllPrevouts(t)>>
SequencesBehind(t, f) == IF AnyoneCanPay(f) \/ FlagBase(f) \in {SINGLE, NONE} THEN <<>> ELSE <<AllSequences(t)>>
OutputsBehind(t, f, j) ==
  CASE FlagBase(f) = NONE -> <<>>
    [] FlagBase(f) = SINGLE -> IF j <= Len(t.outs) THEN <<Enc(OutputT, t.outs[j])>> ELSE <<>>
    [] OTHER -> <<AllOutputs(t)>>
===============================================================================
