------------------------------ MODULE TraceSpend ------------------------------
(* Contracts written with the library, transactions built, signed and completed   *)
(* with it: every input must be spendable by the network's rules.                 *)
EXTENDS Secp256k1, Spend, TraceBase
RealSig(sig, pk, z) ==
  LET d == StrictDer(sig) g == AsSig(d) q == ParsePoint(pk) IN
  /\ d.ok /\ ~NegativeInt(d.r) /\ ~NegativeInt(d.s) /\ g.ok /\ C!IsLow(g.g.s)
  /\ Len(pk) = 33 /\ q.ok
  /\ C!VerifySig(q.pt, z, g.g)
RawInputT == TStruct(<<OutpointT, TBytes, Fix(4)>>)
RawOutputT == TStruct(<<Fix(8), TBytes>>)
RawTxT == TStruct(<<Fix(4), TVec(RawInputT), TVec(RawOutputT), Fix(4)>>)
\* the contract an input was given
Terms(i) == [kind |-> i.kind, pks |-> [k \in 1..Len(i.sks) |-> Compress(C!PublicOf(i.sks[k]))],
             until |-> i.until, age |-> IF i.unit = "blocks" THEN i.age ELSE 4194304 + i.age,
             flag |-> i.flags[1], m |-> Len(i.flags), secret |-> i.secret, x |-> i.x, y |-> i.y, lo |-> i.lo, hi |-> i.hi]
RECURSIVE Subsequence(_, _)
Subsequence(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                     ELSE IF a[1] = b[1] THEN Subsequence(Tail(a), Tail(b)) ELSE Subsequence(a, Tail(b))
AcceptSpend(e) ==
  /\ e.out.k = "ok"
  /\ LET r == Dec(RawTxT, e.out.tx, 1) d == Dec(TxT, e.out.tx, 1) n == Len(e.ins) m == Len(e.outs) IN
     /\ r.ok /\ d.ok /\ r.p = Len(e.out.tx) + 1
     /\ Len(r.v[2]) = n /\ Len(r.v[3]) >= m
     /\ r.v[1] = e.version /\ r.v[4] = e.out.lt /\ (e.grind = "" => e.out.lt = e.lt)
     /\ \A j \in 1..m : r.v[3][j] = <<e.outs[j][1], EncodeOps(e.outs[j][2])>>
     /\ Subsequence([j \in 1..(Len(r.v[3]) - m) |-> r.v[3][m + j][2]], [j \in 1..Len(e.left) |-> EncodeOps(e.left[j])])
     /\ e.out.hash = Sha256d(e.out.tx)
     /\ LET t == [version |-> r.v[1], lt |-> r.v[4], outs |-> d.v[3],
                  ins |-> [j \in 1..n |-> [prev |-> r.v[2][j][1], seq |-> r.v[2][j][3], value |-> e.ins[j].value]]] IN
        \A j \in 1..n :
          LET p == Terms(e.ins[j]) b == LockBytes(p) IN
          /\ r.v[2][j][1] = e.ins[j].prev /\ r.v[2][j][3] = e.ins[j].seq
          /\ e.out.locks[j] = b
          /\ Accepts(Spending(t, j), r.v[2][j][2], b)
DeviationSpend(e) == ""
===============================================================================
