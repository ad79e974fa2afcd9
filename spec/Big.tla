---------------------------------- MODULE Big ----------------------------------
(* Arithmetic on 256-bit numbers, written as 32 big-endian bytes.  TLC's own     *)
(* integers have 32 bits, so it evaluates these through java/Big.java; what they *)
(* mean is ordinary modular arithmetic.                                          *)
EXTENDS Bytes
BigNum == [1..32 -> Byte]
ModAdd(a, b, m) == CHOOSE x \in BigNum : TRUE    \* (a + b) mod m
ModSub(a, b, m) == CHOOSE x \in BigNum : TRUE    \* (a - b) mod m
ModMul(a, b, m) == CHOOSE x \in BigNum : TRUE    \* (a * b) mod m
ModInv(a, m) == CHOOSE x \in BigNum : ModMul(a, x, m) = [i \in 1..32 |-> IF i = 32 THEN 1 ELSE 0]
ModRed(a, m) == CHOOSE x \in BigNum : TRUE       \* a mod m, a of any length
BigLess(a, b) == TRUE                            \* a < b, any lengths
BigOdd(a) == a[32] % 2 = 1
BigBits(a) == [i \in 1..256 |-> (a[(i + 7) \div 8] \div (2 ^ (7 - ((i + 7) % 8)))) % 2]
BigOf(n) == [i \in 1..32 |-> IF i <= 28 THEN 0 ELSE (n \div (256 ^ (32 - i))) % 256]
===============================================================================
