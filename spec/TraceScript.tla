------------------------------ MODULE TraceScript ------------------------------
(* Recorded calls of the script parser and push encoder, judged by ScriptCodec. *)
EXTENDS Wire, TraceBase

ParseOutcome(b, o) ==      \* o: outcome of one parser, with its re-serialisation
  LET r == ParseOps(b) IN
  IF r.ok THEN /\ o.k = "ok"
               /\ NormOps(o.v) = NormOps(r.ops)
               /\ o.re.k = "ok"
               /\ o.re.v = b
  ELSE o.k = "err"
\* known deviation: a push with an overlong length prefix is re-serialised with
\* the shortest prefix; nothing else changes
OverlongOutcome(b, o) ==
  LET r == ParseOps(b) IN
  /\ r.ok /\ ~Representable(b)
  /\ o.k = "ok" /\ NormOps(o.v) = NormOps(r.ops)
  /\ o.re.k = "ok" /\ o.re.v = EncodeOps(r.ops)
IntOK(o, exact) ==         \* o = [ok, v] observed, exact = [ok, v] denoted
  IF exact.ok THEN o.ok /\ o.v = exact.v ELSE ~o.ok
SafeInt(o, d) ==           \* a non-minimal number may be refused, never misread
  o.ok => (Denotes(d).ok /\ Denotes(d).v = o.v)
OpInt(x, o) ==
  IF x.k = "push" /\ ~IsMinimalInt(x.d) THEN SafeInt(o, x.d) ELSE IntOK(o, ToInteger(x))
NumericOp(x) == ToInteger(x).ok /\ (x.k = "push" => IsMinimalInt(x.d))

I32LE(x) == IF x >= 0 THEN LE(x, 4) ELSE BigPad(BigSub(<<0, 0, 0, 0, 1>>, LE(-x, 4)), 4)

FirstSep(ops) == LET s == {j \in 1..Len(ops) : ops[j].k = "code" /\ ops[j].c = OP_CODESEPARATOR}
                 IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : j <= k

AcceptScript(e) ==
  LET o == e.out IN
  CASE e.op = "parse" -> /\ ParseOutcome(e.b, o.slice)
                         /\ ParseOutcome(e.b, o.arr)
                         /\ ParseOutcome(e.b, o.script)
                         /\ o.script.k = "ok" => o.script.src
    \* hostile bytes: an answer, without memory for data that is not there
    [] e.op = "scan" -> LET r == ParseOps(e.b) want == IF r.ok THEN "ok" ELSE "err" IN
                        /\ \A x \in {o.slice.k, o.arr.k, o.script.k} : x = want
                        /\ MemOK(e.mem, Len(e.b))
    \* a piece that is a whole script, over and over
    [] e.op = "long" -> LET r == ParseOps(e.unit) IN
                        /\ r.ok
                        /\ \A x \in {o.slice, o.arr, o.script} :
                             /\ x.k = "ok" /\ x.n = e.n * Len(r.ops) /\ NormOps(x.head) = NormOps(r.ops)
                             /\ x.same /\ (Representable(e.unit) => x.re)
    [] e.op = "txre" -> LET d == Dec(TxT, e.b, 1) IN
                        IF d.ok /\ d.p = Len(e.b) + 1 THEN o.k = "ok" /\ o.raw = e.b
                        ELSE o.k = "err"
    [] e.op = "serop" ->
         /\ o.ser.k = "ok" /\ o.ser.v = EncodeOp(e.o)
         /\ o.int.k = "ok" /\ OpInt(e.o, o.int.v)
         \* the number pushed is the number read back from the bytes
         /\ o.back.k # "panic"
         /\ NumericOp(e.o) => o.back.k = "ok" /\ o.back.n = 1 /\ o.back.v = ToInteger(e.o)
         /\ o.back.k = "ok" /\ e.o.k = "push" => SafeInt(o.back.v, e.o.d)
         /\ o.arr.k = "ok"
         /\ e.o.k = "push" => o.arr.some /\ o.arr.v = e.o.d
    [] e.op = "serops" -> /\ o.ops.k = "ok" /\ o.ops.v = EncodeOps(e.ops)
                          /\ o.script.k = "ok" /\ o.script.v = EncodeOps(e.ops)
    [] e.op = "pushint" -> /\ o.k = "ok"
                           /\ \A x \in {o.a, o.b, o.c, o.d} : x = PInt(e.i)
                           /\ o.enc = EncodeInt(e.i)
    [] e.op = "pushbool" -> o.k = "ok" /\ o.a = PBool(e.b) /\ o.enc = (IF e.b THEN <<1>> ELSE <<>>)
    [] e.op = "pushbytes" -> o.k = "ok" /\ \A x \in {o.a, o.b, o.c, o.d} : x = Push(e.b, TRUE)
    [] e.op = "decint" ->
         LET d == Denotes(e.b) v == o.vec IN
         /\ o.opint.k = "ok"
         /\ IF IsMinimalInt(e.b)
            THEN /\ v.k = "ok" /\ v.v = I32LE(d.v)
                 /\ o.opint.v = [ok |-> TRUE, v |-> d.v]
            ELSE /\ v.k # "panic"
                 /\ v.k = "ok" => d.ok /\ v.v = I32LE(d.v)
                 /\ SafeInt(o.opint.v, e.b)
    [] e.op = "minenc" -> o.k = "ok" /\ o.v = MinimallyEncode(e.b)
    [] e.op = "scriptcode" ->
         LET j == FirstSep(e.ops) IN
         /\ o.first.k = "ok" /\ o.first.v = Drop(e.ops, j)
         /\ o.none.k = "ok" /\ o.none.v = e.ops
\* the scripts of a decoded transaction, as written in its bytes e.b
Scripts(t) == {t[2][j][2] : j \in 1..Len(t[2])} \cup {t[3][j][2] : j \in 1..Len(t[3])}
\* a push whose recorded form is shorter than some longer prefix could have been
RoundTrips(ops) == \A j \in 1..Len(ops) : ops[j].k # "push" \/ ops[j].m
DeviationScript(e) ==
  IF e.op = "parse" /\ OverlongOutcome(e.b, e.out.slice) /\ OverlongOutcome(e.b, e.out.arr)
     /\ OverlongOutcome(e.b, e.out.script) THEN "overlong-push-prefix"
  ELSE IF e.op = "txre" /\ LET d == Dec(TxT, e.b, 1) IN
               d.ok /\ d.p = Len(e.b) + 1 /\ e.out.k = "ok" /\ e.out.raw = Enc(TxT, d.v)
               /\ \E s \in Scripts(d.v) : ~RoundTrips(s)
        THEN "overlong-push-prefix"
  ELSE ""
===============================================================================
