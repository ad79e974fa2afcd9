------------------------------- MODULE MCBuilder -------------------------------
(* Every small builder: up to MaxOuts outputs out of a few kinds, one or two      *)
(* inputs, a few fee rates, and total input amounts aimed at every boundary the    *)
(* outputs create (a leftover just kept, just dropped, just capped, just short of  *)
(* its fee, the fixed outputs just not covered).  The promises about value, order, *)
(* bounds, fee and size hold for each, and each is replayed on the code.           *)
EXTENDS TxBuilder, Json, IOUtils
CONSTANTS MaxOuts, Fees, Sample
Lock(n) == <<Code(OP_HASH160), Push([i \in 1..20 |-> n], TRUE), Code(OP_EQUAL)>>
P2pkhSig == [kind |-> "p2pkh", flags |-> <<65>>, recipe |-> <<>>, ph |-> <<>>, p2sh |-> FALSE, pk |-> <<2>> \o Rep(7, 32)]
It(t, n) == [t |-> t, n |-> n, op |-> Code(0)]
\* a script that depends on the outputs, as covenants do
CovSig == [kind |-> "multi", flags |-> <<65, 195>>, recipe |-> <<It("sig", 1), It("outs", 0), It("nouts", 0), It("est", 0)>>,
           ph |-> <<Rep(0, 72)>>, p2sh |-> TRUE, pk |-> <<>>]
INF == -1
Kinds == <<
  [t |-> "known", value |-> 600, script |-> Lock(1)],
  [t |-> "known", value |-> 0, script |-> <<Code(OP_RETURN), Push(<<1>>, FALSE)>>],
  [t |-> "left", lower |-> 546, upper |-> INF, prec |-> 0, script |-> Lock(2)],
  [t |-> "left", lower |-> 0, upper |-> 1000, prec |-> 0, script |-> <<Code(OP_RETURN)>>],
  [t |-> "left", lower |-> 700, upper |-> 700, prec |-> -1, script |-> Lock(3)],
  [t |-> "left", lower |-> 100, upper |-> 2000, prec |-> 1, script |-> Lock(4) \o Lock(4)],
  [t |-> "left", lower |-> 546, upper |-> INF, prec |-> -1, script |-> Lock(5)] >>
Amount(n) == IF n = INF THEN MAXU64 ELSE LE(n, 8)
VARIABLES outs, fee, cov, total, split
vars == <<outs, fee, cov, total, split>>
K == Len(outs)
InVal(k) == IF split THEN (IF k = 1 THEN total \div 2 ELSE total - total \div 2) ELSE total
Declared == FoldLeft(LAMBDA b, o : IF o.t = "known" THEN AddOutput(b, LE(o.value, 8), o.script)
                                    ELSE AddLeftover(b, Amount(o.lower), Amount(o.upper), o.prec, o.script),
                     NewBuilder(LE(1, 4), Zeros(4), LE(fee, 8)), [j \in 1..K |-> Kinds[outs[j]]])
Prev(k) == <<Rep(k, 32), LE(k, 4)>>
Sigs == IF split THEN <<IF cov THEN CovSig ELSE P2pkhSig, P2pkhSig>> ELSE <<IF cov THEN CovSig ELSE P2pkhSig>>
WithIns(v(_)) == FoldLeft(LAMBDA b, k : AddInput(b, Prev(k), Rep(255, 4), LE(v(k), 8), Lock(k), Sigs[k]), Declared, [k \in 1..Len(Sigs) |-> k])
B == WithIns(InVal)
\* the amounts at which something changes
Zero(k) == 0
Targets ==
  LET b == WithIns(Zero)
      known == FoldLeft(LAMBDA a, j : IF Kinds[outs[j]].t = "known" THEN a + Kinds[outs[j]].value ELSE a, 0, [j \in 1..K |-> j])
      order == ServiceOrder(b)
      keep(n) == [j \in 1..K |-> IF \E i \in 1..n : order[i] = j THEN <<Zeros(8)>> ELSE <<>>]
      size(n) == EstimateSize(b, OutputsWith(b, keep(n)))
      feeOf(n) == (size(n) * fee) \div 1000
      cap(j) == LET o == Kinds[outs[j]] IN IF o.upper = INF THEN o.lower + 500 ELSE o.upper
      given(n) == FoldLeft(LAMBDA a, i : a + cap(order[i]), 0, [i \in 1..n |-> i])
  IN {known - 1, known, known + 1} \cup
     UNION { LET o == Kinds[outs[order[n]]] base == known + given(n - 1) IN
             { base + o.lower + d : d \in {0, 1} } \cup { base + feeOf(n) + o.lower + d : d \in {0, 1} }
             \cup { base + feeOf(n) + d : d \in {-1, 0} } \cup { base + feeOf(n) + cap(order[n]) + d : d \in {-1, 0, 1} }
             : n \in 1..Len(order) }
Init == outs = <<>> /\ fee \in Fees /\ cov \in BOOLEAN /\ split \in BOOLEAN /\ total = -1
Declare == total = -1 /\ K < MaxOuts /\ \E k \in 1..Len(Kinds) : outs' = Append(outs, k) /\ UNCHANGED <<fee, cov, split, total>>
Fund == total = -1 /\ \E t \in {x \in Targets : x >= 0} : total' = t /\ UNCHANGED <<outs, fee, cov, split>>
Next == Declare \/ Fund
Spec == Init /\ [][Next]_vars

SigsFor(sg) == IF sg.kind = "p2pkh" THEN <<Rep(3, 71)>> ELSE <<Rep(4, 70)>>
Holds ==
  total >= 0 =>
    LET b == TLCEval(B) IN
    IF ~Sufficient(b) THEN BigLT(LE(total, 8), KnownSum(b)) /\ BigEq(BigAdd(Missing(b), InputSum(b)), KnownSum(b))
    ELSE LET sv == TLCEval(Served(b)) os == OutputsWith(b, sv.amounts) u == TLCEval(MakeUnsigned(b, os))
             all == FoldLeft(LAMBDA acc, k : Sign(b, acc, k, Sigs[k], SigsFor(Sigs[k])), u, [k \in 1..Len(Sigs) |-> k])
             order == ServiceOrder(b)
             kept == SelectSeq(order, LAMBDA j : sv.amounts[j] # <<>>)
             last == kept[Len(kept)]
         IN /\ Conserved(b, os) /\ OrderKept(b, os)
            /\ (\E j \in 1..K : sv.amounts[j] # <<>>) => BigLE(FeeFor(u.est, b.fee), Paid(b, os))
            \* nothing is given away: only the fee is paid when the last leftover served has no bound to hit
            /\ (kept # <<>> /\ last = order[Len(order)] /\ b.outs[last].upper = MAXU64) => BigEq(FeeFor(u.est, b.fee), Paid(b, os))
            \* served earlier means: a later one never gets what an earlier one could still have taken
            /\ Len(order) = Cardinality({j \in 1..K : b.outs[j].t = "left"})
            /\ \A i \in 1..Len(order) : \A j \in (i + 1)..Len(order) :
                  LET p == b.outs[order[i]].prec q == b.outs[order[j]].prec IN p < q \/ (p = q /\ order[i] < order[j])
            /\ \A i \in 1..Len(order) : \A j \in (i + 1)..Len(order) :
                  (sv.amounts[order[i]] # <<>> /\ sv.amounts[order[j]] # <<>>) => BigEq(sv.amounts[order[i]][1], b.outs[order[i]].upper)
            \* the estimate, and what the signatories wrote
            /\ AllSigned(all) /\ SizeBound(b, all) /\ ActualSize(TxFrom(b, all)) <= u.est
Emit ==
  LET h == FoldLeft(LAMBDA a, x : (a * 31 + x) % 100003, total + fee + (IF cov THEN 7 ELSE 0) + (IF split THEN 13 ELSE 0), outs)
      decl == [j \in 1..K |-> LET o == Kinds[outs[j]] IN
                 IF o.t = "known" THEN [op |-> "output", value |-> LE(o.value, 8), script |-> o.script]
                 ELSE [op |-> "bounded", lower |-> Amount(o.lower), upper |-> Amount(o.upper), prec |-> o.prec, script |-> o.script]]
      ins == [k \in 1..Len(Sigs) |-> [op |-> "input", prev |-> Prev(k), seq |-> Rep(255, 4), value |-> LE(InVal(k), 8), lock |-> Lock(k), sig |-> Sigs[k]]]
      signs == [k \in 1..Len(Sigs) |-> [op |-> "sign", idx |-> k - 1, via |-> IF cov THEN "input" ELSE "signatory", sig |-> Sigs[k], sigs |-> SigsFor(Sigs[k])]]
  IN (IOEnv.EMIT = "yes" /\ total >= 0 /\ h % Sample = 0)
       => PrintT(ToJson([dom |-> "builder", ev |->
            <<[op |-> "new", version |-> LE(1, 4), lt |-> Zeros(4), fee |-> LE(fee, 8)]>> \o decl \o ins \o <<[op |-> "build"]>>
            \o (IF Sufficient(B) THEN signs \o <<[op |-> "complete"]>> ELSE <<>>)]))
===============================================================================
