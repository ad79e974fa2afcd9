------------------------------ MODULE MCCashAddr ------------------------------
(* Design checks of the address format.                                        *)
(* (1) encoding and decoding are inverse, also upper case and without the       *)
(*     default prefix;  (2) every non-zero padding, other length and unknown     *)
(*     version byte is refused although its checksum is right;                   *)
EXTENDS CashAddr
VARIABLES ph, w

SomePrefixes == {ADDR_DEFAULT, ADDR_SLP, <<>>, <<97>>, <<98, 99, 104, 116, 101, 115, 116>>}
Samples == { Rep(b, 20) : b \in {0, 1, 127, 128, 255} } \cup { [Zeros(20) EXCEPT ![i] = 128] : i \in 1..20 }
Checked(prefix, payload) == prefix \o <<COLON>> \o
  MapSeq(CharOf, payload \o RegDigits(PolyMod(PrefixVals(prefix) \o payload \o Zeros(8))))
Inverse1(p, ty, h) ==
  LET t == AddrText(p, ty, h) want == [ok |-> TRUE, prefix |-> p, ty |-> ty, hash |-> h] IN
  /\ AddrParse(t) = want /\ AddrParse(ToUpper(t)) = want
  /\ p = ADDR_DEFAULT => AddrParse(Drop(t, Len(p) + 1)) = want
  /\ Len(t) = Len(p) + 43
RefusesOdd(p, h) ==
  LET pay == ToB32(<<0>> \o h) IN
  /\ \A x \in 1..3 : ~AddrParse(Checked(p, [pay EXCEPT ![34] = @ + x])).ok
  /\ \A n \in (0..45) \ {34} : ~AddrParse(Checked(p, [i \in 1..n |-> IF i <= 34 THEN pay[i] ELSE 0])).ok
  /\ \A v \in {1, 2, 7, 9, 16, 64, 120, 128, 255} : ~AddrParse(Checked(p, ToB32(<<v>> \o h))).ok

Init == ph = "start" /\ w \in SomePrefixes
Next == ph = "start" /\ ph' = "codec" /\ UNCHANGED w
Spec == Init /\ [][Next]_<<ph, w>>
CodecInv == ph = "codec" => (\A ty \in {P2PKH, P2SH}, h \in Samples : Inverse1(w, ty, h)) /\ RefusesOdd(w, Rep(171, 20))
===============================================================================
