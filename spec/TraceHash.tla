------------------------------- MODULE TraceHash -------------------------------
EXTENDS HashTypes, TraceBase
AcceptHash(e) ==
  LET o == e.out IN
  CASE e.op = "digest" -> LET h == HashOf(e.ty, e.msg.d) t == HashArr(e.ty, e.msg) IN
         /\ o.k = "ok" /\ ViewOK(o, h, t) /\ o.raw = h /\ o.eq /\ o.fun = e.ty
         /\ o.named = Named(t, <<"label">>)
    [] e.op = "from" -> LET h == FromHash(e.ty, e.form, e.b) IN
         IF h.ok THEN o.k = "ok" /\ ViewOK(o.v, h.b, Leaf(h.b)) ELSE o.k = "err"
DeviationHash(e) == ""
===============================================================================
