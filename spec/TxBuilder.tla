------------------------------- MODULE TxBuilder -------------------------------
(* The transaction builder: collecting inputs and outputs, building (fees and      *)
(* leftover outputs), signing input by input, handing over partial transactions.   *)
(* Options are <<>> or <<x>>.                                                      *)
(*   txin       [prev, script, seq, lock, value, p2sh, flags]  (last four optional)  *)
(*   tx         [version, ins, outs, lt]                                            *)
(*   builder    [version, lt, fee, ins, outs]                                       *)
(*     in       [prev, seq, value, lock, p2sh, flags, sig, signed]                   *)
(*     out      [t |-> "known", value, script]                                      *)
(*              [t |-> "left", lower, upper, prec, script]                           *)
(*   unsigned   [outs, est, ins (optional txin), fit]                                *)
(*   signatory  [kind \in {"p2pkh","one","multi"}, flags, recipe, ph, p2sh, pk]      *)
EXTENDS Sighash

DUST == LE(546, 8)
MAXU64 == Rep(255, 8)
NewBuilder(version, lt, fee) == [version |-> version, lt |-> lt, fee |-> fee, ins |-> <<>>, outs |-> <<>>]
AddInput(b, prev, seq, value, lock, sg) ==
  [b EXCEPT !.ins = Append(@, [prev |-> prev, seq |-> seq, value |-> value, lock |-> <<lock>>, p2sh |-> <<sg.p2sh>>,
                               flags |-> sg.flags, sig |-> <<sg>>, signed |-> <<>>])]
AddOutput(b, value, script) == [b EXCEPT !.outs = Append(@, [t |-> "known", value |-> value, script |-> script])]
AddLeftover(b, lower, upper, prec, script) ==
  [b EXCEPT !.outs = Append(@, [t |-> "left", lower |-> lower, upper |-> upper, prec |-> prec, script |-> script])]
LockOf(x) == IF x.lock = <<>> THEN <<>> ELSE x.lock[1]

-------------------------------------------------------------------------------
(* What a signatory writes.  est is <<>> while estimating. *)
Item(it, pres, est, sigs, lock, outs) ==
  CASE it.t = "sig"   -> IF it.n <= Len(sigs) THEN <<Push(sigs[it.n], TRUE)>> ELSE <<>>
    [] it.t = "pre"   -> IF it.n <= Len(pres) THEN <<Push(PreimageBytes(pres[it.n]), TRUE)>> ELSE <<>>
    [] it.t = "est"   -> <<Push(IF est = <<>> THEN Zeros(4) ELSE LE(est[1], 4), FALSE)>>
    [] it.t = "outs"  -> <<Push(CatAll([j \in 1..Len(outs) |-> Enc(OutputT, outs[j])]), FALSE)>>
    [] it.t = "nouts" -> <<PInt(Len(outs))>>
    [] it.t = "lock"  -> <<Push(EncodeOps(lock), TRUE)>>
    [] it.t = "op"    -> <<it.op>>
SignatoryOps(sg, pres, est, sigs, lock, outs) ==
  (IF sg.kind = "p2pkh" THEN <<Push(Append(sigs[1], sg.flags[1] % 256), TRUE), Push(sg.pk, TRUE)>>
   ELSE CatAll([j \in 1..Len(sg.recipe) |-> Item(sg.recipe[j], pres, est, sigs, lock, outs)]))
  \o (IF sg.p2sh THEN <<Push(EncodeOps(lock), TRUE)>> ELSE <<>>)
Placeholders(sg) == IF sg.kind = "p2pkh" THEN <<Zeros(72)>> ELSE sg.ph

EstimateScript(x, outs) ==
  IF x.sig = <<>> THEN x.signed[1].script
  ELSE LET lock == LockOf(x)
       IN SignatoryOps(x.sig[1], [k \in 1..Len(x.flags) |-> EmptyPreimage(lock)], <<>>, Placeholders(x.sig[1]), lock, outs)
CsLen(n) == IF n <= 252 THEN 1 ELSE IF n <= 65535 THEN 3 ELSE 5
ScriptSize(ops) == LET n == Len(EncodeOps(ops)) IN CsLen(n) + n
SumInts(xs) == FoldLeft(LAMBDA a, x : a + x, 0, xs)
TxSize(scripts, outs) ==
  4 + CsLen(Len(scripts)) + SumInts([j \in 1..Len(scripts) |-> 40 + ScriptSize(scripts[j])])
    + CsLen(Len(outs)) + SumInts([j \in 1..Len(outs) |-> 8 + ScriptSize(outs[j][2])]) + 4
EstimateSize(b, outs) == TxSize([j \in 1..Len(b.ins) |-> EstimateScript(b.ins[j], outs)], outs)

-------------------------------------------------------------------------------
(* Building. *)
KnownSum(b) == BigSum([j \in 1..Len(b.outs) |-> IF b.outs[j].t = "known" THEN b.outs[j].value ELSE <<0>>])
InputSum(b) == BigSum([j \in 1..Len(b.ins) |-> b.ins[j].value])
Saturate(x) == U64(BigMin(x, MAXU64))
\* fee for a size, rounded down
FeeFor(size, fee) == BigDivSmall(BigMulSmall(fee, size), 1000)
\* indices of the leftover outputs in the order they are served
RECURSIVE InsertByPrec(_, _, _)
InsertByPrec(order, b, j) ==
  IF order = <<>> THEN <<j>>
  ELSE IF b.outs[order[1]].prec <= b.outs[j].prec THEN <<order[1]>> \o InsertByPrec(Tail(order), b, j)
  ELSE <<j>> \o order
ServiceOrder(b) == FoldLeft(LAMBDA acc, j : IF b.outs[j].t = "left" THEN InsertByPrec(acc, b, j) ELSE acc,
                            <<>>, [j \in 1..Len(b.outs) |-> j])
\* amounts: per output <<>> or <<value>>
OutputsWith(b, amounts) ==
  CatAll([j \in 1..Len(b.outs) |-> IF b.outs[j].t = "known" THEN <<<<b.outs[j].value, b.outs[j].script>>>>
                                    ELSE IF amounts[j] = <<>> THEN <<>> ELSE <<<<amounts[j][1], b.outs[j].script>>>>])
\* serving one leftover output j with `left` still to give away
Serve(b, st, j) ==
  LET o == b.outs[j] IN
  IF BigLE(st.left, o.lower) THEN st
  ELSE LET with(v) == [st.amounts EXCEPT ![j] = <<v>>]
           size == EstimateSize(b, OutputsWith(b, with(Zeros(8))))
           fee == FeeFor(size, b.fee)
       IN IF BigLT(st.left, fee) THEN st
          ELSE LET v == BigMin(BigSub(st.left, fee), o.upper)
               IN IF BigLE(v, o.lower) THEN st
                  ELSE [left |-> BigSub(st.left, v), amounts |-> with(U64(v))]
Context(b, outs) == [version |-> b.version, lt |-> b.lt, outs |-> outs,
                     ins |-> [j \in 1..Len(b.ins) |-> [prev |-> b.ins[j].prev, seq |-> b.ins[j].seq, value |-> b.ins[j].value,
                                                       lock |-> LockOf(b.ins[j])]]]
BuilderPreimages(b, outs) == Preimages(Context(b, outs), [j \in 1..Len(b.ins) |-> b.ins[j].flags])
Presigned(x) == IF x.signed # <<>> /\ x.signed[1].script # <<>> THEN x.signed ELSE <<>>
MakeUnsigned(b, outs) ==
  [outs |-> outs, est |-> EstimateSize(b, outs), ins |-> [j \in 1..Len(b.ins) |-> Presigned(b.ins[j])],
   pre |-> BuilderPreimages(b, outs), fit |-> [j \in 1..Len(b.ins) |-> Presigned(b.ins[j]) # <<>>]]
Sufficient(b) == BigLE(KnownSum(b), InputSum(b))
Missing(b) == Saturate(BigSub(KnownSum(b), InputSum(b)))
Served(b) == FoldLeft(LAMBDA st, j : Serve(b, st, j),
                      [left |-> BigSub(InputSum(b), KnownSum(b)), amounts |-> [j \in 1..Len(b.outs) |-> <<>>]], ServiceOrder(b))
BuiltOutputs(b) == OutputsWith(b, Served(b).amounts)
HasLeftover(b) == \E j \in 1..Len(b.outs) : b.outs[j].t = "left"

-------------------------------------------------------------------------------
(* Signing and completion. *)
SignedInput(x, script) == [prev |-> x.prev, script |-> script, seq |-> x.seq, lock |-> x.lock, value |-> <<x.value>>,
                           p2sh |-> x.p2sh, flags |-> <<x.flags>>]
PushSize(d) == Len(EncodePush(d, TRUE))
Fits(own, sg, sigs) == own = <<sg>> /\ Len(sigs) <= Len(Placeholders(sg))
                       /\ \A k \in 1..Len(sigs) : IF sg.kind = "p2pkh" THEN Len(sigs[k]) <= 72
                                                  ELSE PushSize(sigs[k]) <= PushSize(Placeholders(sg)[k])
Sign(b, u, j, sg, sigs) ==
  LET x == b.ins[j]
      script == SignatoryOps(sg, u.pre[j], <<u.est>>, sigs, LockOf(x), u.outs)
  IN [u EXCEPT !.ins[j] = <<SignedInput(x, script)>>, !.fit[j] = Fits(x.sig, sg, sigs)]
AllSigned(u) == \A j \in 1..Len(u.ins) : u.ins[j] # <<>>
TxFrom(b, u) == [version |-> b.version, lt |-> b.lt, outs |-> u.outs,
                 ins |-> [j \in 1..Len(b.ins) |-> IF u.ins[j] # <<>> THEN u.ins[j][1] ELSE SignedInput(b.ins[j], <<>>)]]
FromTx(t) == [version |-> t.version, lt |-> t.lt, fee |-> LE(1000, 8),
              ins |-> [j \in 1..Len(t.ins) |->
                        [prev |-> t.ins[j].prev, seq |-> t.ins[j].seq,
                         value |-> IF t.ins[j].value = <<>> THEN Zeros(8) ELSE t.ins[j].value[1],
                         lock |-> t.ins[j].lock, p2sh |-> t.ins[j].p2sh,
                         flags |-> IF t.ins[j].flags = <<>> THEN <<>> ELSE t.ins[j].flags[1],
                         sig |-> <<>>, signed |-> <<t.ins[j]>>]],
              outs |-> [j \in 1..Len(t.outs) |-> [t |-> "known", value |-> t.outs[j][1], script |-> t.outs[j][2]]]]
TxWire(t) == <<t.version, [j \in 1..Len(t.ins) |-> <<t.ins[j].prev, t.ins[j].script, t.ins[j].seq>>], t.outs, t.lt>>
ActualSize(t) == TxSize([j \in 1..Len(t.ins) |-> t.ins[j].script], t.outs)

-------------------------------------------------------------------------------
(* What a user relies on. *)
OutSum(outs) == BigSum([j \in 1..Len(outs) |-> outs[j][1]])
Paid(b, outs) == BigSub(InputSum(b), OutSum(outs))
\* after a successful build
Conserved(b, outs) == BigLE(OutSum(outs), InputSum(b))
OrderKept(b, outs) == \* the outputs are the declared ones with leftovers possibly missing
  \E kept \in [1..Len(b.outs) -> BOOLEAN] :
    /\ \A j \in 1..Len(b.outs) : b.outs[j].t = "known" => kept[j]
    /\ LET ix == SelectSeq([j \in 1..Len(b.outs) |-> j], LAMBDA j : kept[j])
       IN /\ Len(ix) = Len(outs)
          /\ \A k \in 1..Len(ix) :
               /\ outs[k][2] = b.outs[ix[k]].script
               /\ IF b.outs[ix[k]].t = "known" THEN outs[k][1] = b.outs[ix[k]].value
                  ELSE BigLT(b.outs[ix[k]].lower, outs[k][1]) /\ BigLE(outs[k][1], b.outs[ix[k]].upper)
LeftoverKept(b) == \E j \in 1..Len(b.outs) : b.outs[j].t = "left" /\ Served(b).amounts[j] # <<>>
PaysRate(b, outs, size) == LeftoverKept(b) => BigLE(FeeFor(size, b.fee), Paid(b, outs))
\* when every input carries its own signatory's script with signatures no larger than placeholders
SizeBound(b, u) == AllSigned(u) /\ (\A j \in 1..Len(u.fit) : u.fit[j]) => ActualSize(TxFrom(b, u)) <= u.est
===============================================================================
