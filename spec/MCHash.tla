-------------------------------- MODULE MCHash --------------------------------
(* The conversions between hex texts and hash values are inverse mirror images. *)
EXTENDS HashTypes
VARIABLES ty, b
Samples == { Rep(x, n) : x \in {0, 15, 16, 128, 255}, n \in {0, 1, 19, 20, 21, 31, 32, 33} }
           \cup { [i \in 1..n |-> (i * k) % 256] : n \in {20, 32}, k \in {1, 7, 31, 77} }
Init == ty \in HashFunctions /\ b = <<0>>
Next == b = <<0>> /\ b' \in Samples /\ UNCHANGED ty
Spec == Init /\ [][Next]_<<ty, b>>
Fits == Len(b) = HashLen(ty)
Inverse1 == /\ FromHexBE(ty, HexText(b)) = OfLen(ty, b)
            /\ FromHexLE(ty, HexText(Rev(b))) = OfLen(ty, b)
            /\ FromHexLE(ty, HexText(b)) = OfLen(ty, Rev(b))
            /\ FromHash(ty, "slicele", Rev(b)) = FromHash(ty, "slice", b)
            /\ (~Fits => \A f \in {"slice", "slicele", "wire", "array"} : ~FromHash(ty, f, b).ok)
Upper1 == LET up(t) == [i \in 1..Len(t) |-> IF t[i] >= 97 THEN t[i] - 32 ELSE t[i]]
          IN UnHex(up(HexText(b))) = [ok |-> TRUE, b |-> b]
Odd1 == b # <<>> => ~UnHex(Tail(HexText(b))).ok /\ ~UnHex([HexText(b) EXCEPT ![1] = 103]).ok
Lengths1 == Len(HashOf(ty, b)) = HashLen(ty)
===============================================================================
