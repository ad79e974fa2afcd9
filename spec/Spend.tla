--------------------------------- MODULE Spend ---------------------------------
(* When a coin may be spent: the network's rules for running an unlocking script   *)
(* and the locking script of the coin, with signatures over the transaction, lock  *)
(* times, and scripts given by their hash.  The signature scheme is a parameter.   *)
(* A transaction is one of Sighash.tla; an input's script is given as bytes.       *)
EXTENDS StackMachine, Sighash
CONSTANT SigV(_, _, _)    \* is this a well-formed signature by this key of this 32-byte message?

MaxElement == 520
MaxScript == 10000
MaxOps == 201
\* a spend: the transaction, what all its signatures share, the input
Spending(t, j) == [t |-> t, c |-> Commitments(t), j |-> j]
KnownType(f) == (f \div 64) % 2 = 1 /\ (f \div 32) % 2 = 0 /\ f % 32 \in {1, 2, 3}
Digest(x, code, f) == Sha256d(PreimageBytes(PreimageOver(x.t, x.c, x.j, code, f)))
\* a signature ends in its hash type
Signs(x, code, sig, pk) ==
  /\ Len(sig) > 1 /\ KnownType(sig[Len(sig)])
  /\ SigV(Take(sig, Len(sig) - 1), pk, Digest(x, code, sig[Len(sig)]))
\* signatures in the order of the keys
RECURSIVE InOrder(_, _, _, _)
InOrder(x, code, sigs, pks) ==
  IF sigs = <<>> THEN TRUE
  ELSE IF Len(sigs) > Len(pks) THEN FALSE
  ELSE InOrder(x, code, IF Signs(x, code, sigs[Len(sigs)], pks[Len(pks)]) THEN Take(sigs, Len(sigs) - 1) ELSE sigs, Take(pks, Len(pks) - 1))
\* times of 500000000 and above are seconds, below that blocks
Threshold == 500000000
IsSeconds(lt) == FromLE(lt) = -1 \/ FromLE(lt) >= Threshold
NotBefore(x, n) ==
  /\ n >= 0 /\ (n >= Threshold) = IsSeconds(x.t.lt)
  /\ FromLE(x.t.lt) = -1 \/ n <= FromLE(x.t.lt)
  /\ x.t.ins[x.j].seq # Rep(255, 4)
\* relative: bit 22 tells units of 512 seconds from blocks, the low 16 bits count
OldEnough(x, n) ==
  LET q == x.t.ins[x.j].seq IN
  /\ n >= 0 /\ (FromLE(x.t.version) = -1 \/ FromLE(x.t.version) >= 2)
  /\ q[4] < 128
  /\ (q[3] \div 64) % 2 = (n \div 4194304) % 2
  /\ FromLE(SubSeq(q, 1, 2)) >= n % 65536
\* n keys, m signatures and the unused item below them
Multi(x, code, m) ==
  IF ~Has(m, 1) \/ ~IsNum(It(m, 1)) THEN Bad
  ELSE LET n == Num(It(m, 1)) IN
  IF n \notin 0..20 \/ ~Has(m, n + 2) \/ ~IsNum(It(m, n + 2)) THEN Bad
  ELSE LET k == Num(It(m, n + 2)) IN
  IF k \notin 0..n \/ ~Has(m, n + k + 3) \/ It(m, n + k + 3) # <<>> THEN Bad
  ELSE LET top == Len(m.st)
           pks == SubSeq(m.st, top - n, top - 1)
           sigs == SubSeq(m.st, top - n - 1 - k, top - n - 2)
           good == InOrder(x, code, sigs, pks)
       IN IF ~good /\ \E i \in 1..k : sigs[i] # <<>> THEN Bad   \* a failing check leaves no signature behind
          ELSE Give(m, n + k + 3, <<BoolItem(good)>>)
\* the outcome of a signature check: an empty signature is a no, a wrong one an error
Checked(m, n, sig, good, verify) ==
  IF sig = <<>> /\ ~verify THEN Give(m, n, <<FALSITY>>)
  ELSE IF sig # <<>> /\ good THEN Give(m, n, IF verify THEN <<>> ELSE <<TRUTH>>)
  ELSE Bad
\* s is [m: the machine, sep: where the last separator was executed]
StepIn(x, ops, i, s) ==
  LET o == ops[i] m == s.m
      code == Drop(ops, s.sep)
      name == IF o.k = "code" THEN NameOf[o.c] ELSE ""
      now == CASE name \in {"OP_CHECKSIG", "OP_CHECKSIGVERIFY"} ->
                    IF Has(m, 2) THEN Checked(m, 2, It(m, 2), Signs(x, code, It(m, 2), It(m, 1)), name = "OP_CHECKSIGVERIFY") ELSE Bad
               [] name \in {"OP_CHECKDATASIG", "OP_CHECKDATASIGVERIFY"} ->
                    IF Has(m, 3) THEN Checked(m, 3, It(m, 3), SigV(It(m, 3), It(m, 1), Sha256(It(m, 2))), name = "OP_CHECKDATASIGVERIFY") ELSE Bad
               [] name = "OP_CHECKMULTISIG" -> Multi(x, code, m)
               [] name = "OP_CHECKMULTISIGVERIFY" ->
                    LET r == Multi(x, code, m) IN IF r.ok /\ Truthy(It(r, 1)) THEN Give(r, 1, <<>>) ELSE Bad
               [] name = "OP_CHECKLOCKTIMEVERIFY" -> IF Has(m, 1) /\ IsNum(It(m, 1)) /\ NotBefore(x, Num(It(m, 1))) THEN m ELSE Bad
               [] name = "OP_CHECKSEQUENCEVERIFY" -> IF Has(m, 1) /\ IsNum(It(m, 1)) /\ OldEnough(x, Num(It(m, 1))) THEN m ELSE Bad
               [] name \in {"OP_IF", "OP_NOTIF"} -> IF Has(m, 1) /\ It(m, 1) \in {TRUTH, FALSITY} THEN Step(o, m) ELSE Bad
               [] OTHER -> Step(o, m)
  IN IF ~m.ok THEN s
     ELSE IF o.k = "push" /\ Len(o.d) > MaxElement THEN [s EXCEPT !.m = Bad]
     ELSE IF ~Executing(m) THEN [s EXCEPT !.m = Step(o, m)]
     ELSE IF o.k = "push" /\ ~o.m THEN [s EXCEPT !.m = Bad]
     ELSE [m |-> IF now.ok /\ \E k \in 1..Len(now.st) : Len(now.st[k]) > MaxElement THEN Bad ELSE now,
           sep |-> IF name = "OP_CODESEPARATOR" THEN i ELSE s.sep]
\* an operation that counts against the limit
Counted(o) == o.k # "push" /\ ~(o.k = "code" /\ o.c <= OP_16)
RunIn(x, ops, m) ==
  IF Len(SelectSeq(ops, Counted)) > MaxOps THEN Bad
  ELSE LET r == FoldLeft(LAMBDA s, i : StepIn(x, ops, i, s), [m |-> m, sep |-> 0], [i \in 1..Len(ops) |-> i])
       IN IF r.m.cond # <<>> THEN Bad ELSE r.m
LeavesTrue(m) == m.ok /\ m.st # <<>> /\ Truthy(It(m, 1))
IsScriptHash(b) == Len(b) = 23 /\ b[1] = OP_HASH160 /\ b[2] = 20 /\ b[23] = OP_EQUAL
OnlyPushes(ops) == \A i \in 1..Len(ops) : ops[i].k = "push" \/ (ops[i].k = "code" /\ ops[i].c <= OP_16)
\* the locking script is b; the unlocking script u
Accepts(x, u, b) ==
  LET pu == ParseOps(u) pb == ParseOps(b) IN
  /\ Len(u) <= MaxScript /\ Len(b) <= MaxScript
  /\ pu.ok /\ pb.ok /\ OnlyPushes(pu.ops)
  /\ LET m == RunIn(x, pu.ops, Machine(<<>>, <<>>)) IN
     /\ m.ok
     /\ LET r == RunIn(x, pb.ops, Machine(m.st, <<>>)) IN
        /\ LeavesTrue(r)
        /\ IF ~IsScriptHash(b) THEN Len(r.st) = 1
           ELSE LET red == ParseOps(It(m, 1))
                    q == RunIn(x, red.ops, Machine(Below(m, 1), <<>>))
                IN red.ok /\ LeavesTrue(q) /\ Len(q.st) = 1

-------------------------------------------------------------------------------
(* Contracts.  p is [kind, pks, until, age, flag, m, secret, x, y, lo, hi].                        *)
On(name) == Code(ByteOf[name])
Key(pk) == Push(pk, TRUE)
\* the outputs hash is found 40 bytes before the preimage's end
LooksAtOutputs == <<On("OP_SIZE"), PInt(40), On("OP_SUB"), On("OP_SPLIT"), PInt(32), On("OP_SPLIT"), On("OP_DROP"), On("OP_NIP"), On("OP_SWAP"), On("OP_HASH256"), On("OP_EQUAL")>>
Contract(p) ==
  CASE p.kind = "p2pkh" -> <<On("OP_DUP"), On("OP_HASH160"), Push(Hash160(p.pks[1]), TRUE), On("OP_EQUALVERIFY"), On("OP_CHECKSIG")>>
    [] p.kind \in {"p2pk", "wrapped"} -> <<Key(p.pks[1]), On("OP_CHECKSIG")>>
    [] p.kind = "time" -> <<PInt(p.until), On("OP_CHECKLOCKTIMEVERIFY"), On("OP_DROP"), PInt(p.age), On("OP_CHECKSEQUENCEVERIFY"), On("OP_DROP"), Key(p.pks[1]), On("OP_CHECKSIG")>>
    [] p.kind \in {"claim", "refund"} ->
         <<On("OP_IF"), On("OP_SHA256"), Push(Sha256(p.secret), TRUE), On("OP_EQUALVERIFY"), Key(p.pks[1]), On("OP_ELSE"), Key(p.pks[2]), On("OP_ENDIF"), On("OP_CHECKSIG")>>
    [] p.kind = "covenant" -> <<On("OP_DUP"), Push(<<p.flag>>, TRUE), On("OP_CAT"), Key(p.pks[1]), On("OP_CHECKSIGVERIFY"),
                                On("OP_OVER"), On("OP_SHA256"), Key(p.pks[1]), On("OP_CHECKDATASIGVERIFY")>> \o LooksAtOutputs
    [] p.kind = "separated" -> <<On("OP_OVER"), On("OP_SHA256"), On("OP_OVER"), Push(<<p.flag>>, TRUE), On("OP_CAT"), Key(p.pks[1]), On("OP_CODESEPARATOR"),
                                 On("OP_CHECKSIGVERIFY"), Key(p.pks[1]), On("OP_CHECKDATASIGVERIFY")>> \o LooksAtOutputs
    [] p.kind = "puzzle" -> <<On("OP_OVER"), On("OP_TOALTSTACK"), On("OP_ADD"), PInt(p.x + p.y), On("OP_NUMEQUALVERIFY"), On("OP_FROMALTSTACK"),
                              PInt(p.lo), PInt(p.hi), On("OP_WITHIN"), On("OP_VERIFY"), Key(p.pks[1]), On("OP_CHECKSIG")>>
    [] p.kind \in {"many", "bare"} -> <<PInt(p.m)>> \o [i \in 1..Len(p.pks) |-> Key(p.pks[i])] \o <<PInt(Len(p.pks)), On("OP_CHECKMULTISIG")>>
Bare(kind) == kind \in {"p2pkh", "p2pk", "bare"}
LockBytes(p) == LET b == EncodeOps(Contract(p)) IN IF Bare(p.kind) THEN b ELSE <<OP_HASH160, 20>> \o Hash160(b) \o <<OP_EQUAL>>
\* the unlocking script for contract p that shows what w knows: sigs without hash types, pre the signed preimage
UnlockWith(p, w, sigs, flags, pre, outs) ==
  LET sig(i) == Push(sigs[i] \o <<flags[i]>>, TRUE)
      items == CASE w.kind = "p2pkh" -> <<sig(1), Key(p.pks[1])>>
                 [] w.kind \in {"p2pk", "wrapped", "time"} -> <<sig(1)>>
                 [] w.kind = "claim" -> <<sig(1), Push(w.secret, TRUE), PBool(TRUE)>>
                 [] w.kind = "refund" -> <<sig(1), PBool(FALSE)>>
                 [] w.kind \in {"covenant", "separated"} -> <<Push(outs, TRUE), Push(pre, TRUE), Push(sigs[1], TRUE)>>
                 [] w.kind = "puzzle" -> <<sig(1), PInt(w.x), PInt(w.y)>>
                 [] w.kind \in {"many", "bare"} -> <<Code(0)>> \o [i \in 1..Len(sigs) |-> sig(i)]
  IN EncodeOps(items \o IF Bare(p.kind) THEN <<>> ELSE <<Push(EncodeOps(Contract(p)), TRUE)>>)
Unlock(p, sigs, flags, pre, outs) == UnlockWith(p, p, sigs, flags, pre, outs)
===============================================================================
