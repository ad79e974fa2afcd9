------------------------------ MODULE TraceBuilder ------------------------------
(* Recorded sessions of the transaction builder.  State: [ph, b, u, t, fixed].       *)
EXTENDS TxBuilder, SessionBase

None0 == [ph |-> "none", b |-> <<>>, u |-> <<>>, t |-> <<>>]
StartB(e) == None0
In(b) == [None0 EXCEPT !.ph = "builder", !.b = b]
AlreadyErr(o, j) == o.k = "already" /\ o.idx = j
PreOut(pre) == [j \in 1..Len(pre) |-> [k \in 1..Len(pre[j]) |-> PreimageBytes(pre[j][k])]]
Unsigned(s, u) == [s EXCEPT !.ph = "unsigned", !.u = u]
TxOut(t, o) == /\ o.k = "ok" /\ o.tx = t
               /\ o.size = ActualSize(t)
               /\ (o.b # <<>> => o.b = Enc(TxT, TxWire(t)))
Built(s, o, outs, left) ==
  LET u == MakeUnsigned(s.b, outs) IN
  IF /\ o.k = "ok" /\ o.est = u.est /\ o.pre = PreOut(u.pre)
     \* the properties themselves, on the recorded case
     /\ left => (Conserved(s.b, outs) /\ (Len(s.b.outs) > 8 \/ OrderKept(s.b, outs)) /\ PaysRate(s.b, outs, u.est))
  THEN {Unsigned(s, u)} ELSE {}
PhaseOf(op) == IF op \in {"setfee", "input", "inputs", "output", "outputs", "leftover", "bounded", "sums", "build", "buildfixed"} THEN "builder"
               ELSE IF op \in {"json", "fromtx", "txpre"} THEN "tx" ELSE "unsigned"
StepB(e, s, c) ==
  LET v == c.in o == c.res
      done(b) == IF o.k = "ok" THEN {In(b)} ELSE {}
      same == IF o.k = "ok" THEN {s} ELSE {}
  IN
  \* a call the session's phase has no object for
  IF v.op \notin {"new", "load"} /\ PhaseOf(v.op) # s.ph THEN (IF o.k = "unreachable" THEN {None0} ELSE {})
  ELSE
  CASE v.op = "new" -> done(NewBuilder(v.version, v.lt, v.fee))
    \* a transaction from elsewhere; inputs may come without value, flags or script to sign
    [] v.op = "load" -> IF TxOut(v.tx, o) THEN {[None0 EXCEPT !.ph = "tx", !.t = v.tx]} ELSE {}
    [] v.op = "setfee" -> done([s.b EXCEPT !.fee = v.fee])
    [] v.op = "input" -> IF o.k = "ok" /\ o.idx = Len(s.b.ins) THEN {In(AddInput(s.b, v.prev, v.seq, v.value, v.lock, v.sig))} ELSE {}
    [] v.op = "inputs" -> \* v.n equal inputs
         done(FoldLeft(LAMBDA b, j : AddInput(b, v.prev, v.seq, v.value, v.lock, v.sig), s.b, [j \in 1..v.n |-> j]))
    [] v.op = "output" -> done(AddOutput(s.b, v.value, v.script))
    [] v.op = "outputs" -> done(FoldLeft(LAMBDA b, x : AddOutput(b, x[1], x[2]), s.b, v.outs))
    [] v.op = "leftover" -> done(AddLeftover(s.b, DUST, MAXU64, 0, v.script))
    [] v.op = "bounded" -> done(AddLeftover(s.b, v.lower, v.upper, v.prec, v.script))
    [] v.op = "sums" -> IF o.k = "ok" /\ o.known = Saturate(KnownSum(s.b)) /\ o.input = Saturate(InputSum(s.b))
                           /\ o.version = s.b.version /\ o.lt = s.b.lt THEN {s} ELSE {}
    [] v.op = "build" ->
         IF ~Sufficient(s.b) THEN (IF o.k = "missing" /\ o.amount = Missing(s.b) THEN {None0} ELSE {})
         ELSE Built(s, o, BuiltOutputs(s.b), TRUE)
    [] v.op = "buildfixed" ->
         IF HasLeftover(s.b) THEN (IF o.k = "err" THEN {None0} ELSE {})
         ELSE Built(s, o, [j \in 1..Len(s.b.outs) |-> <<s.b.outs[j].value, s.b.outs[j].script>>], FALSE)
    [] v.op = "preimages" -> IF o.k = "ok" /\ o.pre = [k \in 1..Len(s.u.pre[v.idx + 1]) |-> PreimageBytes(s.u.pre[v.idx + 1][k])]
                             THEN {s} ELSE {}
    [] v.op = "sign" ->
         LET j == v.idx + 1
             sg == IF v.via = "signatory" THEN v.sig ELSE s.b.ins[j].sig[1]
         IN IF s.u.ins[j] # <<>> THEN (IF AlreadyErr(o, v.idx) THEN {s} ELSE {})
            ELSE IF o.k = "ok" THEN {[s EXCEPT !.u = Sign(s.b, s.u, j, sg, v.sigs)]} ELSE {}
    [] v.op = "signs" -> \* several inputs with the same signatures
         LET u == FoldLeft(LAMBDA acc, i : Sign(s.b, acc, i + 1, s.b.ins[i + 1].sig[1], v.sigs), s.u, v.idxs)
         IN IF o.k = "ok" /\ \A i \in 1..Len(v.idxs) : s.u.ins[v.idxs[i] + 1] = <<>> THEN {[s EXCEPT !.u = u]} ELSE {}
    [] v.op = "partial" -> LET t == TxFrom(s.b, s.u) IN IF TxOut(t, o) THEN {[None0 EXCEPT !.ph = "tx", !.t = t]} ELSE {}
    [] v.op = "complete" ->
         IF ~AllSigned(s.u) THEN (IF o.k \in {"refused", "err"} THEN {None0} ELSE {})
         ELSE LET t == TxFrom(s.b, s.u)
              IN IF TxOut(t, o) /\ SizeBound(s.b, s.u) THEN {[None0 EXCEPT !.ph = "tx", !.t = t]} ELSE {}
    [] v.op = "rebuild" -> IF o.k = "ok" THEN {In(s.b)} ELSE {}
    [] v.op = "json" -> IF TxOut(s.t, o) THEN {s} ELSE {}
    [] v.op = "fromtx" -> done(FromTx(s.t))
    [] v.op = "txpre" -> \* preimages of the transaction itself, one flag list for all inputs
         IF o.k = "ok" /\ o.hashed = o.pre /\ o.pre = PreOut(Preimages(Context(FromTx(s.t), s.t.outs), [j \in 1..Len(s.t.ins) |-> v.flags]))
         THEN {s} ELSE {}
===============================================================================
