----------------------------- MODULE Destinations -----------------------------
(* Locking scripts, their classification, and spending scripts.                *)
EXTENDS ScriptCodec, CashAddr, Hashes

LockOf(ty, hash) ==
  IF ty = P2PKH THEN <<Code(OP_DUP), Code(OP_HASH160), Push(hash, TRUE), Code(OP_EQUALVERIFY), Code(OP_CHECKSIG)>>
  ELSE <<Code(OP_HASH160), Push(hash, TRUE), Code(OP_EQUAL)>>

IsPush(o) == o.k = "push"
IsCode(o, c) == o.k = "code" /\ o.c = c
Classify(ops) ==
  CASE /\ Len(ops) = 5 /\ IsCode(ops[1], OP_DUP) /\ IsCode(ops[2], OP_HASH160) /\ IsPush(ops[3])
       /\ Len(ops[3].d) = 20 /\ IsCode(ops[4], OP_EQUALVERIFY) /\ IsCode(ops[5], OP_CHECKSIG)
         -> [d |-> "addr", ty |-> P2PKH, hash |-> ops[3].d]
    [] /\ Len(ops) = 3 /\ IsCode(ops[1], OP_HASH160) /\ IsPush(ops[2]) /\ Len(ops[2].d) = 20
       /\ IsCode(ops[3], OP_EQUAL)
         -> [d |-> "addr", ty |-> P2SH, hash |-> ops[2].d]
    [] Len(ops) = 2 /\ IsPush(ops[1]) /\ IsCode(ops[2], OP_CHECKSIG) -> [d |-> "pk", b |-> ops[1].d]
    [] Len(ops) >= 1 /\ IsCode(ops[1], OP_RETURN) -> [d |-> "null", ops |-> Tail(ops)]
    [] OTHER -> [d |-> "unknown", ops |-> ops]

\* sighash bytes: base type and mask bits 0..4, fork id, anyone-can-pay; bit 5 has no meaning
ValidSigHashByte(b) == (b \div 32) % 2 = 0
\* <<>> or <<[pk, flags]>>
SpendOf(ops) ==
  IF /\ Len(ops) = 2 /\ IsPush(ops[1]) /\ IsPush(ops[2]) /\ Len(ops[2].d) = 33
     /\ ops[1].d # <<>> /\ ValidSigHashByte(ops[1].d[Len(ops[1].d)])
  THEN <<[pk |-> ops[2].d, flags |-> ops[1].d[Len(ops[1].d)]]>>
  ELSE <<>>
===============================================================================
