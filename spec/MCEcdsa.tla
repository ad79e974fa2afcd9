-------------------------------- MODULE MCEcdsa --------------------------------
(* Exhaustive check of the signature scheme of Ecdsa.tla on small curves          *)
(* y^2 = x^3 + 7 of prime order, with TLC's integers: every key, message, nonce,  *)
(* and every candidate (r, s).                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PP, NN, GX, GY,
          Slice     \* every candidate (r, s) is tried for each Slice-th (key, message) pair
IAdd(a, b, m) == (a + b) % m
ISub(a, b, m) == (a + m - b) % m
IMul(a, b, m) == (a * b) % m
IRed(a, m) == a % m
ILt(a, b) == a < b
IOdd(a) == a % 2 = 1
IBits(a) == [i \in 1..7 |-> (a \div (2 ^ (7 - i))) % 2]
InvTableP == [a \in 1..(PP - 1) |-> CHOOSE x \in 1..(PP - 1) : (a * x) % PP = 1]
InvTableN == [a \in 1..(NN - 1) |-> CHOOSE x \in 1..(NN - 1) : (a * x) % NN = 1]
IInv(a, m) == IF m = PP THEN InvTableP[a] ELSE InvTableN[a]
E == INSTANCE Ecdsa WITH AddM <- IAdd, SubM <- ISub, MulM <- IMul, InvM <- IInv, RedM <- IRed, Lt <- ILt,
     IsOdd <- IOdd, BitsOf <- IBits, Zero <- 0, One <- 1, Seven <- 7, P <- PP, N <- NN, HalfN <- (NN - 1) \div 2,
     Gen <- <<GX, GY>>, SqrtExp <- (PP + 1) \div 4

\* the group: multiples of the generator, computed by addition only
RECURSIVE MultiplesFrom(_, _)
MultiplesFrom(k, q) == IF k = NN THEN <<q>> ELSE <<q>> \o MultiplesFrom(k + 1, E!PAdd(q, <<GX, GY>>))
Mult == MultiplesFrom(1, <<GX, GY>>)      \* Mult[k] = k G, Mult[NN] = infinity
PointOf(k) == IF k % NN = 0 THEN E!Infinity ELSE Mult[k % NN]
ASSUME Mult[NN] = E!Infinity
ASSUME \A k \in 1..(NN - 1) : Mult[k] # E!Infinity /\ E!OnCurve(Mult[k]) /\ E!PMul(k, <<GX, GY>>) = Mult[k]
ASSUME \A j, k \in 1..(NN - 1) : E!PAdd(Mult[j], Mult[k]) = PointOf(j + k)
\* compression is exact: Lift finds a point for x exactly when one exists
ASSUME \A x \in 0..(PP - 1), o \in BOOLEAN :
         LET l == E!Lift(x, o) ys == {y \in 0..(PP - 1) : E!OnCurve(<<x, y>>) /\ IOdd(y) = o} IN
         IF l.ok THEN ys = {l.pt[2]} ELSE ys = {}

\* one state per key and message
VARIABLES d, z
Unset == NN + 9
Init == d = 0 /\ z = Unset
Next == \/ d = 0 /\ d' \in 1..(NN - 1) /\ UNCHANGED z
        \/ d # 0 /\ z = Unset /\ z' \in 0..(NN + 3) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, z>>
Pub == PointOf(d)
Nonces == 1..(NN - 1)
SignVerifies == z # Unset => \A k \in Nonces :
  LET g == E!SignWith(d, z, k) l == E!LowS(g) IN
  E!Usable(g) => /\ E!VerifySig(Pub, z, g) /\ E!VerifySig(Pub, z, l) /\ E!IsLow(l.s) /\ E!LowS(l) = l
                 /\ g.r = l.r
\* a signature verifies exactly when signing with some nonce (or its negative) makes it:
\* so only signatures of this key over a message of this value are accepted
Made == {E!SignWith(d, z, k) : k \in Nonces}
VerifyExact == (z # Unset /\ (7 * d + z) % Slice = 0) => \A r, s \in 0..(NN + 1) :
  LET g == [r |-> r, s |-> s] IN
  /\ E!VerifySig(Pub, z, g) = (E!Usable(g) /\ g \in Made)
  \* negating s keeps the meaning
  /\ (E!InScalar(r) /\ E!InScalar(s)) => E!VerifySig(Pub, z, g) = E!VerifySig(Pub, z, [g EXCEPT !.s = NN - s])
Explored == TLCGet("distinct") = 1 + (NN - 1) * (NN + 5)
===============================================================================
