----------------------------------- MODULE Der -----------------------------------
(* DER form of an ECDSA signature: SEQUENCE { INTEGER r, INTEGER s }.             *)
(* Numbers are their content bytes (big endian).                                  *)
EXTENDS Bytes
NoDer == [ok |-> FALSE]
\* a DER length at position i: short form, or the shortest long form
DerLength(b, i) ==
  IF i > Len(b) THEN NoDer
  ELSE IF b[i] < 128 THEN [ok |-> TRUE, v |-> b[i], at |-> i + 1]
  ELSE IF b[i] = 129 /\ i < Len(b) /\ b[i + 1] >= 128 THEN [ok |-> TRUE, v |-> b[i + 1], at |-> i + 2]
  ELSE IF b[i] = 130 /\ i + 1 < Len(b) /\ b[i + 1] > 0 THEN [ok |-> TRUE, v |-> 256 * b[i + 1] + b[i + 2], at |-> i + 3]
  ELSE NoDer
DerInteger(b, i) ==
  IF i > Len(b) \/ b[i] # 2 THEN NoDer
  ELSE LET l == DerLength(b, i + 1) IN
       IF ~l.ok \/ l.v = 0 \/ l.at + l.v - 1 > Len(b) THEN NoDer
       ELSE LET c == SubSeq(b, l.at, l.at + l.v - 1) IN
            IF Len(c) > 1 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128)) THEN NoDer
            ELSE [ok |-> TRUE, v |-> c, at |-> l.at + l.v]
StrictDer(b) ==
  IF Len(b) = 0 \/ b[1] # 48 THEN NoDer
  ELSE LET l == DerLength(b, 2) IN
       IF ~l.ok \/ l.at + l.v # Len(b) + 1 THEN NoDer
       ELSE LET r == DerInteger(b, l.at) IN
            IF ~r.ok THEN NoDer
            ELSE LET s == DerInteger(b, r.at) IN
                 IF ~s.ok \/ s.at # Len(b) + 1 THEN NoDer
                 ELSE [ok |-> TRUE, r |-> r.v, s |-> s.v]
NegativeInt(c) == c[1] >= 128

\* the relaxed form historically found on the chain (BIP66 background): the
\* sequence length is not looked at, lengths may be padded, integers are unsigned
\* and may be padded, and anything may follow
RECURSIVE SkipZeros(_, _, _)
SkipZeros(b, i, n) == IF n > 0 /\ b[i] = 0 THEN SkipZeros(b, i + 1, n - 1) ELSE [at |-> i, n |-> n]
RECURSIVE BENat(_)
BENat(c) == IF c = <<>> THEN 0 ELSE 256 * BENat(SubSeq(c, 1, Len(c) - 1)) + c[Len(c)]
LaxLength(b, i) ==
  IF i > Len(b) THEN NoDer
  ELSE IF b[i] < 128 THEN (IF b[i] > Len(b) - i THEN NoDer ELSE [ok |-> TRUE, v |-> b[i], at |-> i + 1])
  ELSE LET n == b[i] - 128 IN
       IF n > Len(b) - i THEN NoDer
       ELSE LET z == SkipZeros(b, i + 1, n) IN
            IF z.n >= 4 THEN NoDer                 \* more than any input can hold
            ELSE LET v == BENat(SubSeq(b, z.at, z.at + z.n - 1)) at == z.at + z.n IN
                 IF v > Len(b) - at + 1 THEN NoDer ELSE [ok |-> TRUE, v |-> v, at |-> at]
LaxInteger(b, i) ==
  IF i > Len(b) \/ b[i] # 2 THEN NoDer
  ELSE LET l == LaxLength(b, i + 1) IN
       IF ~l.ok THEN NoDer ELSE [ok |-> TRUE, v |-> SubSeq(b, l.at, l.at + l.v - 1), at |-> l.at + l.v]
LaxDer(b) ==
  IF Len(b) < 2 \/ b[1] # 48 THEN NoDer
  ELSE LET at == IF b[2] >= 128 THEN 3 + (b[2] - 128) ELSE 3 IN
       IF at > Len(b) + 1 THEN NoDer
       ELSE LET r == LaxInteger(b, at) IN
            IF ~r.ok THEN NoDer
            ELSE LET s == LaxInteger(b, r.at) IN
                 IF ~s.ok THEN NoDer ELSE [ok |-> TRUE, r |-> r.v, s |-> s.v]

RECURSIVE Trim(_)
Trim(c) == IF Len(c) > 1 /\ c[1] = 0 THEN Trim(Tail(c)) ELSE c
DerIntOf(c) == LET t == Trim(IF c = <<>> THEN <<0>> ELSE c)
                   u == IF t[1] >= 128 THEN <<0>> \o t ELSE t
               IN <<2, Len(u)>> \o u
\* for numbers of at most 32 bytes
DerOf(r, s) == LET b == DerIntOf(r) \o DerIntOf(s) IN <<48, Len(b)>> \o b
===============================================================================
