------------------------------ MODULE TraceOpcode ------------------------------
EXTENDS OpcodeEffect, TraceBase
AllNames == {NameOf[b] : b \in AssignedOpcodes}
Unconstrained == {"OP_PUSHDATA1", "OP_PUSHDATA2", "OP_PUSHDATA4"}
AcceptByte(e, o) ==
  IF e.b \in AssignedOpcodes
  THEN LET n == NameOf[e.b] IN
       /\ o.from = << [byte |-> e.b, debug |-> n, display |-> n, str |-> n] >>
       /\ o.wide = <<>>
       /\ (e.b = 0 \/ e.b > 78) => o.parsed = <<Code(e.b)>> /\ o.written = <<e.b>>
       /\ o.disabled = (n \in DisabledNames) /\ o.retains = (n \in RetainsNames)
       /\ IF n \in Unconstrained THEN TRUE
          ELSE IF n \in DisabledNames \cup DynamicNames THEN o.beh = <<>>
          ELSE IF n = "OP_RETURN" THEN o.beh # <<>> /\ o.beh[1].ins = <<>> /\ o.beh[1].outs = <<>>
          ELSE o.beh # <<>> /\ Describes(n, o.beh[1])
  ELSE /\ e.b # SENTINEL => o.from = <<>>
       /\ o.wide = <<>>
       /\ e.b > 78 => NormOps(o.parsed) = <<Inv(e.b)>> /\ o.written = <<e.b>>
AcceptMap(o) ==
  /\ \A i \in 1..Len(o.pairs) : o.pairs[i].byte \in AssignedOpcodes /\ NameOf[o.pairs[i].byte] = o.pairs[i].name
  /\ \A n \in AllNames \ (Unconstrained \cup {"OP_RESERVED"}) : \E i \in 1..Len(o.pairs) : o.pairs[i].name = n
AcceptOpc(e) ==
  LET o == e.out IN
  /\ o.k = "ok"
  /\ CASE e.op = "byte" -> AcceptByte(e, o)
       [] e.op = "map" -> AcceptMap(o)
DeviationOpc(e) == ""
===============================================================================
