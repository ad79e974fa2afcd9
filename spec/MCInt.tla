--------------------------------- MODULE MCInt ---------------------------------
(* Script integer arithmetic as a state machine over boundary operands: every     *)
(* reachable chain of Depth operations.  The range, stickiness and algebraic laws *)
(* are checked, and with EMIT the chains are printed for replay on the code.      *)
EXTENDS ScriptInt, Json, IOUtils
CONSTANT Depth
Edge == {0, 1, -1, 2, -2, 3, 7, -7, 255, -256, 32767, -32768, 46340, 46341, -46341, 65535, 65536,
         1073741823, 1073741824, -1073741824, IMAX - 1, IMAX, -IMAX}
Shifts == {0, 1, 8, 30, 31, 32, 33}
VARIABLES x, hist
vars == <<x, hist>>
Init == \E a \in Edge : x = OkI(a) /\ hist = <<[op |-> "from", v |-> a]>>
DoBin == \E op \in BinOps, b \in Edge : x' = Bin(op, x, OkI(b)) /\ hist' = Append(hist, [op |-> op, v |-> b])
DoShift == \E op \in {"shl", "shr"}, k \in Shifts : x' = Shift(op, x, k) /\ hist' = Append(hist, [op |-> op, v |-> k])
DoNeg == x' = Neg(x) /\ hist' = Append(hist, [op |-> "neg", v |-> 0])
Done == Len(hist) = Depth + 1
Next == ~Done /\ (DoBin \/ DoShift \/ DoNeg)
Spec == Init /\ [][Next]_vars
InRange == x.v \in (-IMAX)..IMAX
Sticky == [][~x.ok => ~x'.ok]_vars
Laws == x.ok => \A b \in Edge :
  /\ Bin("add", x, OkI(b)) = Bin("add", OkI(b), x)
  /\ LET d == Bin("div", x, OkI(b)) r == Bin("rem", x, OkI(b)) IN
       IF b = 0 THEN ~d.ok /\ ~r.ok
       ELSE d.ok /\ r.ok /\ Bin("add", Bin("mul", d, OkI(b)), r) = x /\ AbsI(r.v) < AbsI(b)
  /\ LET m == Bin("xor", x, OkI(b)) IN m.ok => Bin("xor", m, OkI(b)) = x
  /\ LET n == Bin("and", x, OkI(b)) o == Bin("or", x, OkI(b)) m == Bin("xor", x, OkI(b)) IN
       n.ok /\ o.ok /\ m.ok => Bin("sub", o, n) = m \/ ~Bin("sub", o, n).ok
  /\ Neg(Neg(x)) = x
Emit == IOEnv.EMIT = "yes" /\ Done => PrintT(ToJson([dom |-> "int", raw |-> hist]))
===============================================================================
