------------------------------- MODULE TraceEcc -------------------------------
EXTENDS Secp256k1, Provenance, TraceBase
AcceptVerify(e) ==
  LET o == e.out d == StrictDer(e.sig) q == ParsePoint(e.pub) IN
  IF Len(e.msg) # 32 \/ ~d.ok \/ (e.pub # <<>> /\ ~q.ok) THEN o.k = "err"
  ELSE IF Len(e.pub) = 65 /\ (e.be = "rust" \/ e.pub[1] # 4) /\ o.k = "err" THEN TRUE
  ELSE IF ~q.ok THEN o.k = "err"
  ELSE IF NegativeInt(d.r) \/ NegativeInt(d.s) \/ ~AsSig(d).ok
       THEN o.k = "err" \/ (o.k = "ok" /\ ~o.v.v)
  ELSE LET g == AsSig(d).g IN
       \* the C back end takes low-S signatures only
       /\ o.k = "ok"
       /\ o.v.v = (C!VerifySig(q.pt, e.msg, g) /\ (e.be = "c" => C!IsLow(g.s)))
AcceptSign(e) ==
  LET o == e.out z == e.msg.d t == o.v.tree IN
  IF ~KeyOK(e.sk) \/ Len(z) # 32 THEN o.k = "err"
  ELSE /\ o.k = "ok"
       /\ t = ApplyF(e.msg, t.d, "EcdsaSign")
       /\ IF BigLess(z, OrderN) THEN t.d = Signed(e.sk, z)
          ELSE LET d == StrictDer(t.d) g == AsSig(d) IN
               g.ok /\ C!IsLow(g.g.s) /\ C!VerifySig(C!PublicOf(e.sk), z, g.g)
       /\ o.v.ver /\ o.v.again
AcceptEcc(e) ==
  LET o == e.out IN
  CASE e.op = "sign" -> AcceptSign(e)
    [] e.op = "verify" -> AcceptVerify(e)
    [] e.op = "derive" -> IF KeyOK(e.sk) THEN o.k = "ok" /\ o.v.pub = Compress(C!PublicOf(e.sk)) ELSE o.k = "err"
    [] e.op = "norm" ->
         LET d == LaxDer(e.sig) g == AsSig(d) IN
         IF ~d.ok THEN o.k = "err"
         ELSE IF ~g.ok THEN o.k \in {"ok", "err"}
         ELSE LET l == C!LowS(g.g) IN o.k = "ok" /\ o.v.sig = DerOf(l.r, l.s) /\ o.v.again = o.v.sig
DeviationEcc(e) == ""
ASSUME C!OnCurve(BasePoint)
ASSUME C!PMul(ModSub(OrderN, BigOf(1), PrimeP), BasePoint) = C!PNeg(BasePoint)
ASSUME ModAdd(ModAdd(HalfOrder, HalfOrder, PrimeP), BigOf(1), PrimeP) = OrderN
===============================================================================
