------------------------------- MODULE TraceTypes -------------------------------
EXTENDS Types, TxBuilder, TraceBase
Zeroes(n) == [i \in 1..n |-> 0]
\* o shows value x correctly through every typed view
TypedOK(o, x, fixed) ==
  /\ o.k = "ok" /\ o.op = PushOf(x) /\ o.data = x /\ o.item = x /\ TypeTrue(o.dt, x, fixed)
  /\ o.push = (IF x.t = "A" THEN <<x.v>> ELSE <<>>)
HashValue(e) == LET h == HashArr(e.ty, e.v) IN IF e.name = <<>> THEN h ELSE Named(h, e.name)
AcceptPush(e, o) ==
  CASE e.ty \in {"integer", "result", "i32"} -> TypedOK(o, IntV(e.v), FALSE)
    [] e.ty = "bool" -> TypedOK(o, BoolV(e.v), FALSE)
    [] e.ty = "slice" -> TypedOK(o, BytesV(Leaf(e.v)), FALSE)
    [] e.ty = "bytes" -> TypedOK(o, BytesV(e.v), FALSE)
    [] e.ty = "pubkey" -> IF Len(e.v) = 33 THEN TypedOK(o, BytesV(Leaf(e.v)), TRUE) /\ o.same ELSE o.k = "err"
    [] e.ty \in HashFunctions -> TypedOK(o, BytesV(HashValue(e)), TRUE)
AcceptCsv(e, o) == o.k = "ok" /\ o.seq = [i \in 1..256 |-> Relative(e.kind, e.start + i - 1)]
AcceptShow(e, o) == o.k = "ok" /\ o.ops = TextsOf(e.ops) /\ o.words = TextsOf(e.ops)
AcceptEq(e, o) ==
  LET same == e.a.d = e.b.d IN
  /\ o.k = "ok" /\ o.eq = same /\ o.ne = ~same /\ (same => o.hash)
  /\ Len(o.fixed) = (IF Len(e.a.d) = 20 /\ Len(e.b.d) = 20 THEN 1 ELSE 0)
  /\ o.fixed # <<>> => o.fixed[1].eq = same /\ (same => o.fixed[1].hash)
AcceptEqOps(e, o) ==
  LET exact == e.a = e.b
      same == Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : SameOp(e.a[i], e.b[i])
  IN /\ o.k = "ok" /\ o.ne = ~o.eq
     /\ exact => o.eq
     /\ ~same => ~o.eq
AcceptOps(e, o) == o.k = "ok" /\ \A f \in {"script", "ops", "tops", "sops", "clone", "into", "back"} : o[f] = e.ops
Ok(x, v) == x.k = "ok" /\ x.v = v
AcceptCode(e, o) ==
  /\ Ok(o.first, ScriptCode(e.ops)) /\ Ok(o.none, e.ops)
  /\ \A n \in 0..(e.n - 1) : HasSeparator(e.ops, n) => Ok(o.nth[n + 1], ScriptCodeOf(e.ops, n))
AcceptFlags(o) ==
  /\ o.k = "ok" /\ o.all = 1 /\ o.none = NONE /\ o.single = SINGLE /\ o.forkid = 64 /\ o.acp = 128 /\ o.mask = 31
  /\ o.default = 65
  /\ o.u8 = [i \in 1..256 |-> i - 1]
  /\ AnyoneCanPay(o.acp) /\ ~AnyoneCanPay(o.default) /\ FlagBase(o.none) = NONE /\ FlagBase(o.single) = SINGLE
AcceptDefaults(o) ==
  /\ o.k = "ok" /\ o.tx = Enc(TxT, <<LE(1, 4), <<>>, <<>>, Zeroes(4)>>) /\ o.script = <<>> /\ o.bytes = Leaf(<<>>) /\ o.int = 0 /\ o.intres = 0
  /\ o.h160 = Leaf(Zeroes(20)) /\ o.h256 = Leaf(Zeroes(32)) /\ o.pubkey = Zeroes(33)
\* the context a transaction with spending data gives
ContextOf(t) == [version |-> t.version, lt |-> t.lt, outs |-> t.outs,
                 ins |-> [j \in 1..Len(t.ins) |-> [prev |-> t.ins[j].prev, seq |-> t.ins[j].seq,
                            value |-> IF t.ins[j].value = <<>> THEN Zeroes(8) ELSE t.ins[j].value[1], lock |-> LockOf(t.ins[j])]]]
AcceptPreTree(e, o) ==
  LET t == ContextOf(e.tx) c == TLCEval(Commitments(t)) IN
  /\ o.k = "ok" /\ Len(o.pre) = Len(t.ins)
  /\ \A j \in 1..Len(t.ins) : /\ Len(o.pre[j]) = Len(e.flags)
       /\ \A k \in 1..Len(e.flags) :
            LET p == o.pre[j][k] f == e.flags[k] b == TLCEval(PreimageBytes(PreimageWith(t, c, j, f))) IN
            /\ p.ser.d = b /\ Consistent(p.ser)
            /\ CommitsOrZero(p.hp, PrevoutsBehind(t, f)) /\ CommitsOrZero(p.hs, SequencesBehind(t, f))
            /\ CommitsOrZero(p.ho, OutputsBehind(t, f, j))
            /\ TypedOK(p.typed, BytesV(p.ser), FALSE)
AcceptTxTree(e, o) == o.k = "ok" /\ o.ser.d = Enc(TxT, TxWire(e.tx)) /\ Consistent(o.ser) /\ Commits(o.hash, o.ser.d)
\* thousands of inputs and outputs, made by a rule
ManyEl(x, i) == (i * 31 + i \div 256 + x) % 256
ManyOp(x, i) == <<Code(IF ManyEl(x, i) % 2 = 0 THEN 97 ELSE 118)>>
ManyTx(e) == [version |-> LE(2, 4), lt |-> Zeroes(4),
              outs |-> TLCEval([j \in 1..e.m |-> <<LE(j - 1, 4) \o Zeroes(4), ManyOp(e.x, j - 1)>>]),
              ins |-> TLCEval([j \in 1..e.n |-> [prev |-> <<[k \in 1..32 |-> ManyEl(e.x, j - 1)], LE(j - 1, 4)>>, seq |-> LE(j - 1, 4),
                                         value |-> LE(j - 1, 4) \o Zeroes(4), lock |-> ManyOp(e.x, j - 1)]])]
AcceptManyIn(e, o) ==
  LET t == TLCEval(ManyTx(e)) c == TLCEval(Commitments(t)) IN
  /\ o.k = "ok"
  /\ \A s \in 1..3 : /\ o.from[s].n = e.n
                     /\ o.from[s].p = [a \in 1..Len(e.at) |-> [k \in 1..Len(e.flags) |-> PreimageBytes(PreimageWith(t, c, e.at[a] + 1, e.flags[k]))]]
AcceptTypes(e) ==
  LET o == e.out IN
  CASE e.op = "push" -> AcceptPush(e, o)
    [] e.op = "csv" -> AcceptCsv(e, o)
    [] e.op = "show" -> AcceptShow(e, o)
    [] e.op = "eq" -> AcceptEq(e, o)
    [] e.op = "eqops" -> AcceptEqOps(e, o)
    [] e.op = "ops" -> AcceptOps(e, o)
    [] e.op = "scode" -> AcceptCode(e, o)
    [] e.op = "flags" -> AcceptFlags(o)
    [] e.op = "defaults" -> AcceptDefaults(o)
    [] e.op = "pretree" -> AcceptPreTree(e, o)
    [] e.op = "manyin" -> AcceptManyIn(e, o)
    [] e.op = "txtree" -> AcceptTxTree(e, o)
DeviationTypes(e) == ""
===============================================================================
