--------------------------------- MODULE MCDest ---------------------------------
(* Every script within Edits changes of a standard template, and every short       *)
(* script, over operations that matter to classification: the locking script of an  *)
(* address classifies as that address and as nothing else, templates exclude each    *)
(* other, classification survives the wire, and the code agrees on each.             *)
EXTENDS Destinations, Json, IOUtils
CONSTANTS Edits, Short, Sample
H(n, x) == [i \in 1..n |-> x]
Ops == <<Code(OP_DUP), Code(OP_HASH160), Push(H(20, 1), TRUE), Code(OP_EQUALVERIFY), Code(OP_CHECKSIG), Code(OP_EQUAL), Code(OP_RETURN),
         Push(H(33, 2), TRUE), Push(H(19, 1), TRUE), Push(H(21, 1), TRUE), Push(H(20, 3), FALSE), Push(<<>>, FALSE), Push(<<5, 65>>, TRUE),
         Push(<<1>> \o H(69, 9) \o <<32>>, TRUE), Push(H(65, 4), TRUE), Code(81), PInt(5), Code(OP_CODESEPARATOR)>>
Templates == <<
  LockOf(P2PKH, H(20, 1)), LockOf(P2SH, H(20, 1)), <<Push(H(33, 2), TRUE), Code(OP_CHECKSIG)>>,
  <<Code(OP_RETURN), Push(<<5, 65>>, TRUE)>>, <<Push(<<1, 65>>, TRUE), Push(H(33, 2), TRUE)>> >>
VARIABLES ops, left, from
vars == <<ops, left, from>>
Init == (ops = <<>> /\ left = Short /\ from = "short") \/ (\E t \in 1..Len(Templates) : ops = Templates[t] /\ left = Edits /\ from = "edit")
Splice(s, i, x, j) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, j, Len(s))
Next == /\ left > 0 /\ left' = left - 1 /\ UNCHANGED from
        /\ \/ from = "short" /\ \E o \in 1..Len(Ops) : ops' = Append(ops, Ops[o])
           \/ from = "edit" /\ \E i \in 1..(Len(ops) + 1) :
                \/ \E o \in 1..Len(Ops) : ops' = Splice(ops, i, <<Ops[o]>>, i)
                \/ i <= Len(ops) /\ \E o \in 1..Len(Ops) : ops' = Splice(ops, i, <<Ops[o]>>, i + 1)
                \/ i <= Len(ops) /\ ops' = Splice(ops, i, <<>>, i + 1)
                \/ i < Len(ops) /\ ops' = Splice(ops, i, <<ops[i + 1], ops[i]>>, i + 2)
Spec == Init /\ [][Next]_vars
C == Classify(ops)
\* an address exactly for its own locking script
AddressOnly == (C.d = "addr") <=> (\E ty \in {P2PKH, P2SH} : \E h \in {H(20, 1), H(20, 3)} :
                                      LET l == LockOf(ty, h) IN Len(ops) = Len(l) /\ EncodeOps(l) = EncodeOps(ops) /\ C.ty = ty /\ C.hash = h)
Recovered == C.d = "addr" => EncodeOps(LockOf(C.ty, C.hash)) = EncodeOps(ops)
Nulldata == (C.d = "null") <=> (ops # <<>> /\ EncodeOps(ops)[1] = OP_RETURN)
Key == (C.d = "pk") => EncodeOps(ops) = EncodePush(C.b, ops[1].m) \o <<OP_CHECKSIG>>
\* the kind survives the wire, except that a pushed number or opcode may be read back as a push or opcode
SpendsArePushes == SpendOf(ops) # <<>> => (C.d = "unknown" /\ Len(SpendOf(ops)[1].pk) = 33 /\ ops[1].d[Len(ops[1].d)] = SpendOf(ops)[1].flags)
Wire == LET r == ParseOps(EncodeOps(ops)) IN r.ok /\ ((\A i \in 1..Len(ops) : ops[i].k \in {"code", "push"}) => (Classify(r.ops).d = C.d \/ \E i \in 1..Len(ops) : ops[i].k = "push" /\ Len(ops[i].d) <= 1))
Hash == FoldLeft(LAMBDA a, o : (a * 31 + o.c + Len(o.d)) % 100003, left, ops)
Case(form) == [dom |-> "addr", op |-> "dest", prefix |-> ADDR_DEFAULT, form |-> form, ops |-> IF form = "ops" THEN ops ELSE <<>>,
               b |-> IF form = "bytes" THEN EncodeOps(ops) ELSE <<>>]
Emit == (IOEnv.EMIT = "yes" /\ Hash % Sample = 0) => PrintT(ToJson(Case("ops"))) /\ PrintT(ToJson(Case("bytes")))
===============================================================================
