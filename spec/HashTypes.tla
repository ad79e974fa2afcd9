------------------------------- MODULE HashTypes -------------------------------
(* The five hash types: digests and their byte-order conversions.  A hash value  *)
(* is its raw (digest order) byte string; texts are character codes.             *)
EXTENDS Provenance, ScriptCodec

HashLen(ty) == IF ty \in {"Sha256", "Hash256"} THEN 32 ELSE 20
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(b) == [i \in 1..(2 * Len(b)) |-> HexChar(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
UnHex(t) == IF Len(t) % 2 = 1 \/ \E i \in 1..Len(t) : HexVal(t[i]) = -1 THEN [ok |-> FALSE]
            ELSE [ok |-> TRUE, b |-> [i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]]
OfLen(ty, b) == IF Len(b) = HashLen(ty) THEN [ok |-> TRUE, b |-> b] ELSE [ok |-> FALSE]
FromHexBE(ty, t) == LET u == UnHex(t) IN IF u.ok THEN OfLen(ty, u.b) ELSE u
FromHexLE(ty, t) == LET u == UnHex(t) IN IF u.ok THEN OfLen(ty, Rev(u.b)) ELSE u
QUOTE == 34
\* text of a JSON string without escapes
Quoted(t) == <<QUOTE>> \o t \o <<QUOTE>>
FromHash(ty, form, b) ==
  CASE form = "hexbe" -> FromHexBE(ty, b)
    [] form \in {"hexle", "json"} -> FromHexLE(ty, b)
    [] form = "slicele" -> OfLen(ty, Rev(b))
    [] form \in {"slice", "array", "wire", "new"} -> OfLen(ty, b)
    [] form = "bin" -> IF Len(b) >= HashLen(ty) THEN [ok |-> TRUE, b |-> Take(b, HashLen(ty))] ELSE [ok |-> FALSE]
    [] form = "rawjson" -> [ok |-> FALSE]         \* generated texts that are no JSON string

HasWithin(t, s) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
\* every way to look at a hash
ViewOK(o, h, tree) ==
  /\ o.slice = h /\ o.tree = tree /\ o.into = tree /\ o.intoba = tree
  /\ o.le = Rev(h) /\ o.hexle = HexText(Rev(h)) /\ o.hexbe = HexText(h)
  /\ o.display = HexText(Rev(h)) /\ o.json = Quoted(HexText(Rev(h)))
  /\ HasWithin(o.debug, HexText(Rev(h)))
  /\ o.bin = h /\ o.wire = h /\ o.push = Push(h, TRUE)
===============================================================================
