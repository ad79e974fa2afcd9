------------------------------- MODULE MCNumbers -------------------------------
(* The script number codec, counted through: every number from -Lim to Lim and   *)
(* around every byte boundary.                                                   *)
EXTENDS ScriptCodec
CONSTANT Lim
VARIABLE n
Starts == {-Lim} \cup {s * b - 40 : s \in {1, -1}, b \in {32768, 65536, 8388608, 16777216}}
          \cup {MAXINT - 80, -MAXINT}
Init == n \in Starts
Next == /\ n < MAXINT
        /\ n \in (-Lim)..Lim \/ \E s \in Starts : n \in s..(s + 79)
        /\ n' = n + 1
Spec == Init /\ [][Next]_n
NumInverse  == Denotes(EncodeInt(n)) = [ok |-> TRUE, v |-> n]
Shortest == MinimallyEncode(EncodeInt(n)) = EncodeInt(n)
Padded   == \* an overlong writing denotes the same and is shortened to the shortest
  LET e == EncodeInt(n)
      w == IF e = <<>> THEN <<0, 0>> ELSE [e EXCEPT ![Len(e)] = @ % 128] \o <<0, IF n < 0 THEN 128 ELSE 0>>
  IN Denotes(w) = [ok |-> TRUE, v |-> n] /\ MinimallyEncode(w) = e
PushBack == LET r == ParseOps(EncodeOp(PInt(n))) IN
            r.ok /\ Len(r.ops) = 1 /\ ToInteger(r.ops[1]) = [ok |-> TRUE, v |-> n]
===============================================================================
