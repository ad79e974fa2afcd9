------------------------------- MODULE MCOpcode -------------------------------
(* For every opcode with a signature there is exactly one description that agrees *)
(* with the machine (all orders and deltas tried for up to 3 results; for more    *)
(* results the one that follows from the machine and every change of one or two   *)
(* entries of it), so that judging a description is not vacuous.                  *)
EXTENDS OpcodeEffect
VARIABLES name, d
Names == DOMAIN Signatures \ Reaching
Deltas == {"Untouched", "Added", "Changed", "Moved", "MovedIndirectly", "Observed", "Removed"}
\* the order the machine shows on distinct arguments
Shown(n) ==
  LET sg == Signatures[n] args == [i \in 1..Len(sg.ins) |-> <<i>>] e == Effect(n, args, <<>>, <<>>)
  IN [i \in 1..Len(sg.outs) |-> (CHOOSE k \in 1..Len(args) : args[k] = e.outs[i]) - 1]
Orders(n) ==
  LET sg == Signatures[n] IN
  IF ~Permutes(n, sg) THEN {<<>>}
  ELSE LET q == Shown(n) m == Len(sg.outs) args == 0..(Len(sg.ins) - 1) IN
       {<<>>} \cup { <<o>> : o \in IF m <= 3 THEN [1..m -> args]
                                  ELSE {[q EXCEPT ![i] = x, ![j] = y] : i, j \in 1..m, x, y \in args} }
Desc(n, o, x) == [ins |-> Signatures[n].ins, outs |-> Signatures[n].outs, order |-> o, delta |-> x]
DeltaSets(n, m, o) == IF m <= 3 THEN [1..m -> Deltas]
   ELSE LET c == {x \in [1..m -> {"Untouched", "Added", "Moved", "MovedIndirectly", "Observed"}] : DeltaOK(n, Desc(n, o, x))}
        IN c
Init == name \in Names /\ d = [k |-> "none"]
Next == /\ d.k = "none" /\ UNCHANGED name
        /\ \E o \in Orders(name) : d' = [k |-> "some", o |-> o]
Spec == Init /\ [][Next]_<<name, d>>
Good(o) == LET n == name sg == Signatures[n] IN
           /\ OrderOK(Desc(n, o, <<>>)) /\ (sg.outs # <<>> => ((o # <<>>) = Permutes(n, sg)))
           /\ DepthIs(n, Desc(n, o, <<>>))
Right(o) == o = IF Permutes(name, Signatures[name]) THEN <<Shown(name)>> ELSE <<>>
Unique == d.k = "some" => (Good(d.o) = Right(d.o))
OneDelta == (d.k = "some" /\ Right(d.o)) =>
              Cardinality({x \in DeltaSets(name, Len(Signatures[name].outs), d.o) : DeltaOK(name, Desc(name, d.o, x))}) = 1
===============================================================================
