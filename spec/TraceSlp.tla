------------------------------- MODULE TraceSlp -------------------------------
EXTENDS Slp, HashTypes, TraceBase
\* zero value, the specified script, and its bytes read back as the same fields
OutputIs(o, fields) ==
  /\ o.k = "ok" /\ o.value = Zeros(8)
  /\ o.ops = SlpScript(fields)
  /\ o.b = EncodeOps(SlpScript(fields))
  /\ SlpFields(o.b) = [ok |-> TRUE, fields |-> fields]
AcceptSlp(e) ==
  LET o == e.out IN
  CASE e.op = "send" -> OutputIs(o, SendFields(e.tt, e.id, e.amounts))
    [] e.op = "amounts" -> o.k = "ok" /\ o.v = [i \in 1..Len(e.amounts) |-> Push(AmountField(e.amounts[i]), FALSE)]
    [] e.op = "genesis" -> OutputIs(o, GenesisFields(e))
    [] e.op = "id" -> /\ o.k = "ok" /\ o.vec = Rev(e.id) /\ o.be = e.id /\ o.hash = e.id /\ o.back /\ o.again
                      /\ o.json = Quoted(HexText(Rev(e.id)))
    [] e.op = "idslice" -> IF Len(e.b) = 32 THEN o.k = "ok" /\ o.v = Rev(e.b) ELSE o.k = "err"
    [] e.op = "tx" -> o.k = "ok" /\ o.v = e.tx
DeviationSlp(e) == ""
===============================================================================
