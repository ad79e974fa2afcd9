SPECIFICATION Spec
CONSTANT SigV <- TheSig
CONSTANT Ins = {1, 2, 3}
CONSTANT Outs = {0, 1, 2, 3, 4}
CONSTANT Kinds = {"p2pkh", "p2pk", "wrapped", "time", "claim", "refund", "covenant", "separated", "puzzle", "many", "bare"}
INVARIANT HonestSpends
INVARIANT ChangesMatter
INVARIANT OtherTerms
INVARIANT TooEarly
CHECK_DEADLOCK FALSE
