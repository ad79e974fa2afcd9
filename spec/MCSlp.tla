--------------------------------- MODULE MCSlp ---------------------------------
(* Every SLP message is recovered from its bytes.                               *)
EXTENDS Slp
VARIABLES fields, n
Values == { <<>>, <<0>>, <<1>>, <<16>>, <<129>>, Rep(7, 8), Rep(0, 32), Rep(65, 75), Rep(65, 76), Rep(66, 255), Rep(66, 256), LOKAD }
Init == fields = <<>> /\ n = 0
Next == n < 4 /\ n' = n + 1 /\ \E v \in Values : fields' = Append(fields, v)
Spec == Init /\ [][Next]_<<fields, n>>
Recovered == SlpFields(EncodeOps(SlpScript(fields))) = [ok |-> TRUE, fields |-> fields]
Unspendable == EncodeOps(SlpScript(fields))[1] = OP_RETURN
===============================================================================
