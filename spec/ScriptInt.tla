------------------------------- MODULE ScriptInt -------------------------------
(* Script integer arithmetic.  A value is [ok, v]; ok = FALSE is the failed      *)
(* state, which no operation leaves.  Numbers of native types wider than 32 bits *)
(* are 16-byte two's complement strings.                                         *)
EXTENDS Bytes
LOCAL INSTANCE Bitwise

IMAX == 2147483647
Failed == [ok |-> FALSE, v |-> 0]
OkI(x) == [ok |-> TRUE, v |-> x]
AbsI(x) == IF x < 0 THEN -x ELSE x

\* TLC computes with 32-bit integers: guard every operation that might leave them
AddI(a, b) == IF (b > 0 /\ a > IMAX - b) \/ (b < 0 /\ a < -IMAX - b) THEN Failed ELSE OkI(a + b)
SubI(a, b) == AddI(a, -b)
MulI(a, b) == IF a # 0 /\ b # 0 /\ AbsI(a) > IMAX \div AbsI(b) THEN Failed ELSE OkI(a * b)
\* truncation towards zero; the sign of the remainder is that of the dividend
DivI(a, b) == IF b = 0 THEN Failed
              ELSE LET q == AbsI(a) \div AbsI(b) IN OkI(IF (a < 0) # (b < 0) THEN -q ELSE q)
RemI(a, b) == IF b = 0 THEN Failed
              ELSE LET r == AbsI(a) % AbsI(b) IN OkI(IF a < 0 THEN -r ELSE r)
\* two's complement: sign bit and the low 31 bits
Sgn(a) == IF a < 0 THEN 1 ELSE 0
Low(a) == IF a < 0 THEN (a + IMAX) + 1 ELSE a
FromPattern(sg, low) == IF sg = 0 THEN OkI(low)
                        ELSE IF low = 0 THEN Failed       \* -2^31 is out of range
                        ELSE OkI((low - IMAX) - 1)
AndI(a, b) == FromPattern(IF Sgn(a) + Sgn(b) = 2 THEN 1 ELSE 0, Low(a) & Low(b))
OrI(a, b)  == FromPattern(IF Sgn(a) + Sgn(b) > 0 THEN 1 ELSE 0, Low(a) | Low(b))
XorI(a, b) == FromPattern(IF Sgn(a) # Sgn(b) THEN 1 ELSE 0, Low(a) ^^ Low(b))
\* shifts act on the 32-bit pattern; a count above 31 is an error
Bit(a, k) == IF k = 31 THEN Sgn(a) ELSE (Low(a) \div (2 ^ k)) % 2
ShlI(a, k) ==
  IF k > 31 THEN Failed
  ELSE LET b(j) == IF j < k THEN 0 ELSE Bit(a, j - k)
           low == FoldLeft(LAMBDA acc, j : acc + b(j - 1) * (2 ^ (j - 1)), 0, [j \in 1..31 |-> j])
       IN FromPattern(b(31), low)
ShrI(a, k) ==
  IF k > 31 THEN Failed
  ELSE IF k = 31 THEN OkI(IF a < 0 THEN -1 ELSE 0)
  ELSE OkI(a \div (2 ^ k))                                 \* \div rounds down
NegI(a) == OkI(-a)
BinI(op, a, b) ==
  CASE op = "add" -> AddI(a, b) [] op = "sub" -> SubI(a, b) [] op = "mul" -> MulI(a, b)
    [] op = "div" -> DivI(a, b) [] op = "rem" -> RemI(a, b)
    [] op = "and" -> AndI(a, b) [] op = "or" -> OrI(a, b) [] op = "xor" -> XorI(a, b)
BinOps == {"add", "sub", "mul", "div", "rem", "and", "or", "xor"}
\* on possibly failed operands
Bin(op, x, y) == IF x.ok /\ y.ok THEN BinI(op, x.v, y.v) ELSE Failed
Shift(op, x, k) == IF x.ok THEN (IF op = "shl" THEN ShlI(x.v, k) ELSE ShrI(x.v, k)) ELSE Failed
Neg(x) == IF x.ok THEN NegI(x.v) ELSE Failed

-------------------------------------------------------------------------------
(* Native integers: 16 little-endian bytes, two's complement (unsigned 128-bit   *)
(* values keep their 17th byte).                                                 *)
Negative(w) == w[Len(w)] >= 128
\* 17-byte two's complement -> script integer or failed
FromWide(w) ==
  IF ~Negative(w)
  THEN LET x == FromLE(w) IN IF x = -1 THEN Failed ELSE OkI(x)
  ELSE LET m == BigPad(BigSub(Zeros(Len(w)) \o <<1>>, w), Len(w))   \* magnitude
           x == FromLE(m)
       IN IF x = -1 THEN Failed ELSE OkI(-x)
NonNegative(x) == IF x.ok /\ x.v < 0 THEN Failed ELSE x
Compare(x, y) == IF ~x.ok \/ ~y.ok THEN "none" ELSE IF x.v < y.v THEN "lt" ELSE IF x.v > y.v THEN "gt" ELSE "eq"
===============================================================================
