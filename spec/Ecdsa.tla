--------------------------------- MODULE Ecdsa ---------------------------------
(* Short-Weierstrass curve y^2 = x^3 + b over F_p with a generator of prime      *)
(* order n, and ECDSA on it.  The arithmetic is a parameter: MCEcdsa checks the  *)
(* scheme exhaustively on a small curve with TLC's own integers, TraceEcc uses   *)
(* the same definitions on secp256k1.                                            *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS AddM(_, _, _), SubM(_, _, _), MulM(_, _, _), InvM(_, _), RedM(_, _),
          Lt(_, _), IsOdd(_), BitsOf(_), Zero, One, Seven, P, N, HalfN, Gen, SqrtExp

\* points: <<>> is the point at infinity
Infinity == <<>>
OnCurve(q) == q = Infinity \/
  MulM(q[2], q[2], P) = AddM(MulM(q[1], MulM(q[1], q[1], P), P), Seven, P)
PNeg(q) == IF q = Infinity THEN q ELSE <<q[1], SubM(Zero, q[2], P)>>
Line(l, a, b) == LET x == SubM(SubM(MulM(l, l, P), a[1], P), b[1], P)
                 IN <<x, SubM(MulM(l, SubM(a[1], x, P), P), a[2], P)>>
PDouble(a) == IF a = Infinity \/ a[2] = Zero THEN Infinity
              ELSE LET x2 == MulM(a[1], a[1], P)
                   IN Line(MulM(AddM(x2, AddM(x2, x2, P), P), InvM(AddM(a[2], a[2], P), P), P), a, a)
PAdd(a, b) == IF a = Infinity THEN b ELSE IF b = Infinity THEN a
              ELSE IF a[1] = b[1] THEN (IF a[2] = b[2] THEN PDouble(a) ELSE Infinity)
              ELSE Line(MulM(SubM(b[2], a[2], P), InvM(SubM(b[1], a[1], P), P), P), a, b)
PMul(k, q) == FoldLeft(LAMBDA acc, bit : LET d == PDouble(acc) IN IF bit = 1 THEN PAdd(d, q) ELSE d, Infinity, BitsOf(k))

Pow(x, k) == FoldLeft(LAMBDA acc, bit : LET d == MulM(acc, acc, P) IN IF bit = 1 THEN MulM(d, x, P) ELSE d, One, BitsOf(k))
\* the point with this x coordinate and parity of y, p = 3 (mod 4)
Lift(x, odd) ==
  LET c == AddM(MulM(x, MulM(x, x, P), P), Seven, P)
      y == Pow(c, SqrtExp)
  IN IF MulM(y, y, P) # c \/ (y = Zero /\ odd) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, pt |-> <<x, IF IsOdd(y) = odd THEN y ELSE SubM(Zero, y, P)>>]

InScalar(x) == x # Zero /\ Lt(x, N)
PublicOf(d) == PMul(d, Gen)
\* z is the message as a number (any size)
SignWith(d, z, k) == LET q == PMul(k, Gen) r == RedM(q[1], N)
                     IN [r |-> r, s |-> MulM(InvM(k, N), AddM(RedM(z, N), MulM(r, d, N), N), N)]
IsLow(s) == ~Lt(HalfN, s)
LowS(sig) == IF IsLow(sig.s) THEN sig ELSE [sig EXCEPT !.s = SubM(Zero, @, N)]
Usable(sig) == sig.r # Zero /\ sig.s # Zero
VerifySig(q, z, sig) ==
  /\ InScalar(sig.r) /\ InScalar(sig.s)
  /\ LET w == InvM(sig.s, N)
         c == PAdd(PMul(MulM(RedM(z, N), w, N), Gen), PMul(MulM(sig.r, w, N), q))
     IN c # Infinity /\ RedM(c[1], N) = sig.r
===============================================================================
