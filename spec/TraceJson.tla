------------------------------ MODULE TraceJson ------------------------------
EXTENDS JsonTx, TraceBase

\* an observed transaction with the opcode sentinel normalised
NormScript(s) == [i \in 1..Len(s) |-> IF s[i].o.k = "code" /\ s[i].o.c = SENTINEL THEN [s[i] EXCEPT !.o.k = "inv"] ELSE s[i]]
NormTx(t) == [t EXCEPT
  !.ins = [i \in 1..Len(t.ins) |-> [t.ins[i] EXCEPT !.script = NormScript(@), !.lock = [x \in 1..Len(@) |-> NormScript(@[x])]]],
  !.outs = [i \in 1..Len(t.outs) |-> [t.outs[i] EXCEPT !.script = NormScript(@)]]]
DecodedTo(r, o) == IF r.ok THEN o.k = "ok" /\ NormTx(o.tx) = r.v ELSE o.k = "err"

\* hash and raw bytes of a hashed transaction follow from the rest
Whole(ty, v) ==
  IF ty # "tx" THEN v
  ELSE LET u == v[1]
           raw == Enc(TxT, <<u[1], [i \in 1..Len(u[2]) |-> SubSeq(u[2][i], 1, 3)], u[3], u[4]>>)
       IN <<u, Sha256d(raw), raw>>

AcceptJson(e) ==
  LET o == e.out IN
  CASE e.op = "enc" ->
         LET d == DecodeDoc(o.doc) IN
         /\ o.k = "ok" /\ d.ok
         /\ NormTx(e.tx) = d.v /\ NormTx(o.back) = d.v
         /\ o.same /\ o.again /\ o.ser
    [] e.op = "dec" -> /\ DecodedTo(DecodeDoc(e.doc), o)
                       /\ o.k = "ok" => o.re
    [] e.op = "raw" -> o.k \in {"ok", "err"}
    [] e.op = "chain" -> o.k = (IF e.n <= MAXNEST THEN "ok" ELSE "err") /\ (o.k = "ok" => o.height = e.n /\ o.data = e.root)
    [] e.op = "cycle" -> o.k = "err"
    [] e.op = "hser" -> LET t == SerdeType(e.ty) d == HDec(t, o.doc) IN
                        /\ o.k = "ok" /\ d.ok /\ d.v = Canon(t, Whole(e.ty, e.v)) /\ NormS(t, o.back) = Canon(t, Whole(e.ty, e.v)) /\ o.same
    [] e.op = "hdec" -> LET t == SerdeType(e.ty) d == HDec(t, e.doc) IN
                        IF d.ok THEN o.k = "ok" /\ NormS(t, o.v) = d.v ELSE o.k = "err"
    [] e.op = "bser" -> LET t == SerdeType(e.ty) IN
                        /\ o.k = "ok" /\ o.b = BEnc(t, Whole(e.ty, e.v)) /\ NormS(t, o.back) = Canon(t, Whole(e.ty, e.v))
    [] e.op = "bdec" -> LET t == SerdeType(e.ty) d == BDec(t, e.b, 1) IN
                        IF d.ok THEN o.k = "ok" /\ NormS(t, o.v) = d.v ELSE o.k = "err"
    [] e.op = "hraw" -> o.k \in {"ok", "err"}
DeviationJson(e) == ""
===============================================================================
