------------------------------- MODULE TraceAddr -------------------------------
EXTENDS Destinations, TraceBase

AddrIs(a, prefix, ty, hash) ==
  a.prefix = prefix /\ a.kind = KindOf(prefix) /\ a.ty = ty /\ a.hash = hash
Fresh(a, prefix, ty, hash) == AddrIs(a, prefix, ty, hash) /\ a.text = AddrText(prefix, ty, hash)
DecodedAs(text, o) ==
  LET p == AddrParse(text) IN
  IF p.ok THEN /\ o.k = "ok" /\ AddrIs(o.v, p.prefix, p.ty, p.hash)
               /\ text = AddrText(p.prefix, p.ty, p.hash) => o.v.text = text
  ELSE o.k = "err"
\* the other forms of an address a: owned copies are the address, another prefix keeps type and hash, the
\* binary form holds the parts (the text is written anew), the text form is the text
FormsOf(f, a, to) ==
  /\ f.own.k = "ok" /\ f.own.v = [a |-> a, eq |-> TRUE]
  /\ f.into.k = "ok" /\ f.into.v = [a |-> a, eq |-> TRUE]
  /\ f.with.k = "ok" /\ Fresh(f.with.v, to, a.ty, a.hash)
  /\ f.bin.k = "ok" /\ Fresh(f.bin.v, a.prefix, a.ty, a.hash)
  /\ f.stream = f.bin
  /\ f.js.k = "ok" /\ f.js.v = a.text
DestIs(o, prefix, ops) ==
  LET c == Classify(ops) IN
  /\ o.d = c.d
  /\ c.d = "addr" => Fresh(o.a, prefix, c.ty, c.hash)
  /\ c.d = "pk" => o.b = c.b
  /\ c.d \in {"null", "unknown"} => NormOps(o.ops) = NormOps(c.ops)
  /\ o.has = (c.d = "addr")
ScriptOf(e) == IF e.form = "ops" THEN [ok |-> TRUE, ops |-> e.ops] ELSE ParseOps(e.b)

AcceptAddr(e) ==
  LET o == e.out IN
  CASE e.op = "enc" -> o.k = "ok" /\ Fresh(o.v, e.prefix, e.ty, e.hash) /\ FormsOf(o.f, o.v, e.to)
    [] e.op = "pk" -> o.k = "ok" /\ Fresh(o.v, e.prefix, P2PKH, Hash160(e.pk))
    [] e.op = "redeem" -> o.k = "ok" /\ Fresh(o.v, e.prefix, P2SH, Hash160(EncodeOps(e.ops)))
    [] e.op = "dec" -> /\ DecodedAs(e.text, o.plain) /\ DecodedAs(e.text, o.serde)
                       /\ o.plain.k = "ok" => o.f.k = "ok" /\ FormsOf(o.f.v, o.plain.v, e.to)
    [] e.op = "lock" ->
         LET want == LockOf(e.ty, e.hash) IN
         /\ o.k = "ok" /\ o.b1 = EncodeOps(want) /\ o.b2 = EncodeOps(want)
         /\ o.p2pkh = (IF e.ty = P2PKH THEN <<EncodeOps(want)>> ELSE <<>>)
         /\ DestIs(o.dest, e.prefix, want) /\ o.same
    [] e.op = "dest" -> LET s == ScriptOf(e) IN
         IF s.ok THEN o.k = "ok" /\ DestIs(o.dest, e.prefix, s.ops) /\ o.spend = SpendOf(s.ops)
         ELSE o.k = "err"
    [] e.op = "prefix" -> o.k = "ok" /\ o.kind = KindOf(e.text) /\ o.strs = <<ADDR_DEFAULT, ADDR_SLP>> /\ o.default = ADDR_DEFAULT
         /\ o.conv = << [s |-> e.text, kind |-> KindOf(e.text)], [s |-> e.text, kind |-> KindOf(e.text)], [s |-> ADDR_SLP, kind |-> 2] >>
DeviationAddr(e) == ""
===============================================================================
