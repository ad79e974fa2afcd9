-------------------------------- MODULE MCProv --------------------------------
(* Every short history of operations on annotated arrays, starting from two      *)
(* arrays; the derivation stays consistent, split and concat are inverse on the   *)
(* data, and the histories are replayed on the code.                              *)
EXTENDS Provenance, Json, IOUtils
CONSTANT Depth
VARIABLES regs, hist
vars == <<regs, hist>>
Call(v, rs) == regs' = regs \o rs /\ hist' = Append(hist, v)
Init == /\ regs = <<Leaf(<<1, 2>>), Arr(<<3>>, <<"x">>, "Plain", <<>>)>>
        /\ hist = <<[op |-> "new", d |-> <<1, 2>>, n |-> <<>>], [op |-> "new", d |-> <<3>>, n |-> <<"x">>]>>
K == Len(regs)
Ix == {i \in 1..K : i = 1 \/ i = 2 \/ i >= K - 1}      \* the first two and the newest two
DoConcat == \E i, j \in Ix : Call([op |-> "concat", a |-> i - 1, b |-> j - 1, n |-> <<>>], <<Concat(regs[i], regs[j])>>)
DoSplit == \E i \in Ix : \E at \in {0, 1, 2, 3, Len(regs[i].d)} :
   /\ SplitOK(regs[i], at)
   /\ LET h == SplitAt(regs[i], at) IN Call([op |-> "split", a |-> i - 1, at |-> at], <<h.l, h.r>>)
DoName == \E i \in Ix : Call([op |-> "named", a |-> i - 1, n |-> <<"n">>], <<Named(regs[i], <<"n">>)>>)
DoHash == \E i \in Ix : Call([op |-> "hash", a |-> i - 1, f |-> "Hash160"], <<HashArr("Hash160", regs[i])>>)
DoSign == \E i \in Ix : Call([op |-> "apply", a |-> i - 1, d |-> <<9, 9, 9>>, f |-> "EcdsaSign"], <<ApplyF(regs[i], <<9, 9, 9>>, "EcdsaSign")>>)
DoPad == Call([op |-> "pad", v |-> -5, len |-> 3], <<Padded(-5, 3)>>)
Next == Len(hist) < Depth + 2 /\ (DoConcat \/ DoSplit \/ DoName \/ DoHash \/ DoSign \/ DoPad)
Spec == Init /\ [][Next]_vars
AllConsistent == \A i \in 1..K : Consistent(regs[i])
SplitJoins == \A i \in 1..K : \A at \in 0..Len(regs[i].d) :
                 LET h == SplitAt(regs[i], at) IN h.l.d \o h.r.d = regs[i].d /\ Consistent(h.l) /\ Consistent(h.r)
                                                  /\ Concat(h.l, h.r).d = regs[i].d
Emit == IOEnv.EMIT = "yes" /\ Len(hist) = Depth + 2 => PrintT(ToJson([dom |-> "prov", ev |-> hist]))
===============================================================================
