------------------------------ MODULE MCAddrCode ------------------------------
(* The checksum detects every change of one to five of WIDTH characters         *)
(* (42 follow the colon).  Error patterns are sums of syndromes; a pattern can   *)
(* be shifted and scaled (both maps are invertible and commute with the register *)
(* step, checked below), so one error may be taken as value 1 in the last        *)
(* position.  States are the patterns of at most two errors elsewhere, without   *)
(* and with that error; they are identified by their syndrome alone (VIEW), so   *)
(* an undetected pattern of up to five errors would make two states coincide:    *)
(* none does iff the number of distinct states is the number of patterns.        *)
EXTENDS CashAddr
CONSTANTS WIDTH
VARIABLES reg, place, errors

\* multiplication by the primitive element of GF(32) (x^5 = x^3 + 1), on every digit of the register
MulA(d) == LET s == 2 * d IN IF s >= 32 THEN (s - 32) ^^ 9 ELSE s
MulHalf(h) == FoldLeft(LAMBDA a, i : a + MulA((h \div (32 ^ i)) % 32) * (32 ^ i), 0, <<0, 1, 2, 3>>)
MulReg(c) == <<MulHalf(c[1]), MulHalf(c[2])>>
Basis == { <<2 ^ i, 0>> : i \in 0..19 } \cup { <<0, 2 ^ i>> : i \in 0..19 }
ASSUME \A c \in Basis : PolyStep(MulReg(c), 0) = MulReg(PolyStep(c, 0))       \* scaling commutes
ASSUME \A c \in Basis, d \in Basis : PolyStep(XorReg(c, d), 0) = XorReg(PolyStep(c, 0), PolyStep(d, 0))
ASSUME \A i \in 1..5 : Gens[i] = PolyStep(<<2 ^ (14 + i), 0>>, 0)
\* 31 scalings of 1 reach every non-zero digit, and the step has no kernel
RECURSIVE Powers(_, _)
Powers(d, n) == IF n = 0 THEN {} ELSE {d} \cup Powers(MulA(d), n - 1)
ASSUME Powers(1, 31) = 1..31

RECURSIVE ShiftReg(_, _)
ShiftReg(c, n) == IF n = 0 THEN c ELSE ShiftReg(PolyStep(c, 0), n - 1)
Syn == TLCEval([pos \in 0..(WIDTH - 1) |-> TLCEval([v \in 0..31 |-> ShiftReg(<<0, v>>, pos)])])
ASSUME \A pos \in 0..(WIDTH - 1) : Syn[pos][1] # <<0, 0>>

Init == /\ reg \in {<<0, 0>>, Syn[0][1]} /\ place = 0 /\ errors = 0
Next == /\ errors < 2
        /\ \E pos \in (place + 1)..(WIDTH - 1), v \in 1..31 :
             reg' = XorReg(reg, Syn[pos][v]) /\ place' = pos
        /\ errors' = errors + 1
Spec == Init /\ [][Next]_<<reg, place, errors>>
Syndrome == reg
Patterns == 2 * (1 + 31 * (WIDTH - 1) + 961 * (((WIDTH - 1) * (WIDTH - 2)) \div 2))
AllDistinct == TLCGet("distinct") = Patterns
===============================================================================
