------------------------------- MODULE Secp256k1 -------------------------------
(* The curve of the protocol, its key and signature encodings, and deterministic  *)
(* signing: Ecdsa.tla with 256-bit arithmetic.                                    *)
EXTENDS Big, Der, Rfc6979
FF(n) == [i \in 1..n |-> 255]
PrimeP == FF(27) \o <<254, 255, 255, 252, 47>>
OrderN == FF(15) \o <<254, 186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>
HalfOrder == <<127>> \o FF(15) \o <<93, 87, 110, 115, 87, 164, 80, 29, 223, 233, 47, 70, 104, 27, 32, 160>>
BasePoint == <<
  <<121,190,102,126,249,220,187,172,85,160,98,149,206,135,11,7,2,155,252,219,45,206,40,217,89,242,129,91,22,248,23,152>>,
  <<72,58,218,119,38,163,196,101,93,164,251,252,14,17,8,168,253,23,180,72,166,133,84,25,156,71,208,143,251,16,212,184>> >>
\* (p + 1) / 4
RootExp == <<63>> \o FF(27) \o <<191, 255, 255, 12>>
C == INSTANCE Ecdsa WITH AddM <- ModAdd, SubM <- ModSub, MulM <- ModMul, InvM <- ModInv, RedM <- ModRed,
     Lt <- BigLess, IsOdd <- BigOdd, BitsOf <- BigBits, Zero <- BigOf(0), One <- BigOf(1), Seven <- BigOf(7),
     P <- PrimeP, N <- OrderN, HalfN <- HalfOrder, Gen <- BasePoint, SqrtExp <- RootExp

KeyOK(b) == Len(b) = 32 /\ C!InScalar(b)
Compress(q) == <<IF BigOdd(q[2]) THEN 3 ELSE 2>> \o q[1]
ParsePoint(b) ==
  IF Len(b) = 33 /\ b[1] \in {2, 3} /\ BigLess(Tail(b), PrimeP) THEN C!Lift(Tail(b), b[1] = 3)
  ELSE IF Len(b) = 65 /\ b[1] \in {4, 6, 7} /\ BigLess(SubSeq(b, 2, 33), PrimeP) /\ BigLess(SubSeq(b, 34, 65), PrimeP)
       THEN LET q == <<SubSeq(b, 2, 33), SubSeq(b, 34, 65)>> IN
            [ok |-> C!OnCurve(q) /\ (b[1] = 4 \/ (b[1] = 7) = BigOdd(q[2])), pt |-> q]
  ELSE [ok |-> FALSE]
\* the 32-byte number in a DER integer, if it is a scalar
Scalar(c) == LET t == Trim(IF c = <<>> THEN <<0>> ELSE c) IN
             IF Len(t) > 32 THEN [ok |-> FALSE]
             ELSE LET x == [i \in 1..(32 - Len(t)) |-> 0] \o t IN [ok |-> C!InScalar(x), x |-> x]
\* the signature as numbers: well-formed and both scalars
AsSig(d) == IF ~d.ok THEN [ok |-> FALSE]
            ELSE LET r == Scalar(d.r) s == Scalar(d.s) IN
                 IF r.ok /\ s.ok THEN [ok |-> TRUE, g |-> [r |-> r.x, s |-> s.x]] ELSE [ok |-> FALSE]

RECURSIVE SignFrom(_, _, _)
SignFrom(st, d, z) ==
  LET c == NonceStep(st) IN
  IF C!InScalar(c.v)
  THEN LET g == C!SignWith(d, z, c.v) IN
       IF C!Usable(g) THEN C!LowS(g) ELSE SignFrom(NonceRetry(c), d, z)
  ELSE SignFrom(NonceRetry(c), d, z)
\* deterministic signature of a 32-byte message below the group order
Signed(d, z) == LET g == SignFrom(NonceStart(d, z), d, z) IN DerOf(g.r, g.s)
===============================================================================
