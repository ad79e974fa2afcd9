---------------------------------- MODULE Slp ----------------------------------
(* Simple Ledger Protocol outputs.  A message is OP_RETURN followed by explicit  *)
(* length-prefixed pushes; SlpFields reads them back from the bytes alone.       *)
EXTENDS ScriptCodec

LOKAD == <<83, 76, 80, 0>>
T_SEND == <<83, 69, 78, 68>>
T_GENESIS == <<71, 69, 78, 69, 83, 73, 83>>
SlpScript(fields) == <<Code(OP_RETURN)>> \o [i \in 1..Len(fields) |-> Push(fields[i], FALSE)]
\* amounts are little-endian in the model (U64), big-endian on chain
AmountField(a) == Rev(a)
SendFields(tt, id, amounts) == <<LOKAD, <<tt>>, T_SEND, Rev(id)>> \o [i \in 1..Len(amounts) |-> AmountField(amounts[i])]
GenesisFields(g) == <<LOKAD, <<g.tt>>, T_GENESIS, g.ticker, g.name, g.url, g.dochash, <<g.decimals>>, g.baton, Rev(g.qty)>>

\* an SLP parser: explicit pushes only
RECURSIVE SlpRead(_, _, _)
SlpRead(b, p, acc) ==
  IF p > Len(b) THEN [ok |-> TRUE, fields |-> acc]
  ELSE IF b[p] \notin 1..78 THEN [ok |-> FALSE]
  ELSE LET s == ParseStep(b, p) IN
       IF s.st = "op" THEN SlpRead(b, s.p, Append(acc, s.op.d)) ELSE [ok |-> FALSE]
SlpFields(b) == IF b = <<>> \/ b[1] # OP_RETURN THEN [ok |-> FALSE] ELSE SlpRead(b, 2, <<>>)
===============================================================================
