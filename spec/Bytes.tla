-------------------------------- MODULE Bytes --------------------------------
(* Byte strings are sequences over 0..255.  Numbers that do not fit TLC's     *)
(* 32-bit integers (u64 amounts, 40-bit checksums) stay byte/digit sequences. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255
ByteSeqs(n) == UNION { [1..k -> Byte] : k \in 0..n }

Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == Rep(0, n)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
CatAll(ss) == FlattenSeq(ss)
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

\* natural < 2^31 as n little-endian bytes, and back
LE(x, n) == [i \in 1..n |-> IF i <= 4 THEN (x \div (256 ^ (i - 1))) % 256 ELSE 0]
BE(x, n) == Rev(LE(x, n))
\* value of a little-endian string, or -1 when it needs more than 31 bits
FromLE(b) ==
  IF \E i \in 1..Len(b) : (i > 4 /\ b[i] # 0) \/ (i = 4 /\ b[i] > 127) THEN -1
  ELSE FoldLeft(LAMBDA a, i : a + b[i] * (256 ^ (i - 1)), 0,
                [i \in 1..(IF Len(b) < 4 THEN Len(b) ELSE 4) |-> i])

-------------------------------------------------------------------------------
(* Unbounded naturals as little-endian base-256 digit strings of any length. *)
Big(x) == LE(x, 4)
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE BigTrim(_)
BigTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BigTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BigAddC(_, _, _, _, _)
BigAddC(a, b, i, n, c) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c
       IN <<s % 256>> \o BigAddC(a, b, i + 1, n, s \div 256)
BigAdd(a, b) == BigAddC(a, b, 1, MaxLen(a, b), 0)
RECURSIVE BigSubC(_, _, _, _, _)
BigSubC(a, b, i, n, c) ==      \* requires a >= b
  IF i > n THEN <<>>
  ELSE LET s == Dig(a, i) - Dig(b, i) - c
       IN <<(s + 256) % 256>> \o BigSubC(a, b, i + 1, n, IF s < 0 THEN 1 ELSE 0)
BigSub(a, b) == BigSubC(a, b, 1, MaxLen(a, b), 0)
RECURSIVE BigCmpFrom(_, _, _)
BigCmpFrom(a, b, i) == IF i = 0 THEN 0
                       ELSE IF Dig(a, i) < Dig(b, i) THEN -1
                       ELSE IF Dig(a, i) > Dig(b, i) THEN 1
                       ELSE BigCmpFrom(a, b, i - 1)
BigCmp(a, b) == BigCmpFrom(a, b, MaxLen(a, b))
BigLE(a, b) == BigCmp(a, b) <= 0
BigLT(a, b) == BigCmp(a, b) < 0
BigEq(a, b) == BigCmp(a, b) = 0
BigMin(a, b) == IF BigLE(a, b) THEN a ELSE b
RECURSIVE BigMulC(_, _, _, _)
BigMulC(a, k, i, c) ==         \* k < 2^22
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE LE(c, 4))
  ELSE LET s == a[i] * k + c
       IN <<s % 256>> \o BigMulC(a, k, i + 1, s \div 256)
BigMulSmall(a, k) == BigMulC(a, k, 1, 0)
RECURSIVE BigDivC(_, _, _, _)
BigDivC(a, k, i, r) ==         \* most significant digit first; k < 2^22
  IF i = 0 THEN <<>>
  ELSE LET s == r * 256 + a[i]
       IN Append(BigDivC(a, k, i - 1, s % k), s \div k)
\* BigDivC appends the digits computed last first, so reverse into LE order
BigDivSmall(a, k) == BigDivC(a, k, Len(a), 0)
BigSum(xs) == FoldLeft(LAMBDA s, x : BigAdd(s, x), <<0>>, xs)
BigPad(a, n) == [i \in 1..n |-> Dig(a, i)]      \* value must fit n bytes
BigFits(a, n) == Len(BigTrim(a)) <= n
U64(a) == BigPad(a, 8)
===============================================================================
