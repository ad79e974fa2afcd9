------------------------------- MODULE CashAddr -------------------------------
(* CashAddr texts.  Texts and prefixes are sequences of character codes.       *)
(* The 40-bit checksum register is a pair of 20-bit halves <<high, low>>.       *)
EXTENDS Bytes, Bitwise

Charset == <<113, 112, 122, 114, 121, 57, 120, 56, 103, 102, 50, 116, 118, 100, 119, 48,
             115, 51, 106, 110, 53, 52, 107, 104, 99, 101, 54, 109, 117, 97, 55, 108>>
CharOf(d) == Charset[d + 1]
IsB32(c) == \E i \in 1..32 : Charset[i] = c
DigitOf(c) == (CHOOSE i \in 1..32 : Charset[i] = c) - 1

COLON == 58
ADDR_DEFAULT == <<98, 105, 116, 99, 111, 105, 110, 99, 97, 115, 104>>        \* bitcoincash
ADDR_SLP == <<115, 105, 109, 112, 108, 101, 108, 101, 100, 103, 101, 114>>   \* simpleledger
KindOf(p) == IF p = ADDR_DEFAULT THEN 1 ELSE IF p = ADDR_SLP THEN 2 ELSE 0
P2PKH == 0   P2SH == 8

\* checksum register
Gens == << <<626475, 822881>>, <<498550, 891362>>, <<996325, 1029060>>, <<713450, 778920>>, <<124148, 255088>> >>
XorReg(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
\* what the five bits shifted out add
GenSum == TLCEval([c0 \in 0..31 |-> TLCEval(
  FoldLeft(LAMBDA acc, i : IF (c0 \div (2 ^ (i - 1))) % 2 = 1 THEN XorReg(acc, Gens[i]) ELSE acc,
           <<0, 0>>, <<1, 2, 3, 4, 5>>))])
PolyStep(c, v) ==
  LET g == GenSum[c[1] \div 32768]
  IN << ((c[1] % 32768) * 32 + c[2] \div 32768) ^^ g[1], (((c[2] % 32768) * 32) ^^ v) ^^ g[2] >>
PolyMod(vals) == XorReg(FoldLeft(PolyStep, <<0, 1>>, vals), <<0, 1>>)
RegDigits(c) == [i \in 1..8 |-> IF i <= 4 THEN (c[1] \div (32 ^ (4 - i))) % 32 ELSE (c[2] \div (32 ^ (8 - i))) % 32]
PrefixVals(p) == [i \in 1..Len(p) |-> p[i] % 32] \o <<0>>

\* regrouping of bits
BitsOf(b, w) == [i \in 1..(w * Len(b)) |-> (b[(i - 1) \div w + 1] \div (2 ^ (w - 1 - ((i - 1) % w)))) % 2]
FromBits(bits, w) == [i \in 1..(Len(bits) \div w) |->
                        FoldLeft(LAMBDA a, j : 2 * a + bits[(i - 1) * w + j], 0, [j \in 1..w |-> j])]
ToB32(b) == LET bits == BitsOf(b, 8) pad == (5 - (Len(bits) % 5)) % 5 IN FromBits(bits \o Zeros(pad), 5)

AddrText(prefix, ty, hash) ==
  LET payload == TLCEval(ToB32(<<ty>> \o hash))
      sum == RegDigits(PolyMod(PrefixVals(prefix) \o payload \o Zeros(8)))
  IN prefix \o <<COLON>> \o MapSeq(CharOf, payload \o sum)

Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
ToLower(t) == [i \in 1..Len(t) |-> IF Upper(t[i]) THEN t[i] + 32 ELSE t[i]]
ToUpper(t) == [i \in 1..Len(t) |-> IF Lower(t[i]) THEN t[i] - 32 ELSE t[i]]
NoAddr == [ok |-> FALSE]
AddrParse(text) ==
  LET t == ToLower(text)
      colons == {i \in 1..Len(t) : t[i] = COLON}
      at == IF colons = {} THEN 0 ELSE CHOOSE i \in colons : \A j \in colons : i <= j
      prefix == IF at = 0 THEN ADDR_DEFAULT ELSE SubSeq(t, 1, at - 1)
      body == Drop(t, at)
      digits == TLCEval([i \in 1..Len(body) |-> DigitOf(body[i])])
      payload == TLCEval(Take(digits, Len(digits) - 8))
      bits == TLCEval(BitsOf(payload, 5))
      whole == TLCEval(FromBits(bits, 8))
  IN IF (\E i \in 1..Len(text) : Upper(text[i])) /\ (\E i \in 1..Len(text) : Lower(text[i])) THEN NoAddr
     ELSE IF \E i \in 1..Len(body) : ~IsB32(body[i]) THEN NoAddr
     ELSE IF PolyMod(PrefixVals(prefix) \o digits) # <<0, 0>> THEN NoAddr
     ELSE IF Len(digits) # 42 THEN NoAddr                       \* 21 bytes, 2 bits of padding
     ELSE IF bits[169] # 0 \/ bits[170] # 0 THEN NoAddr
     ELSE IF whole[1] \notin {P2PKH, P2SH} THEN NoAddr
     ELSE [ok |-> TRUE, prefix |-> prefix, ty |-> whole[1], hash |-> Drop(whole, 1)]
===============================================================================
