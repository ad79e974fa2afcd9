-------------------------------- MODULE TraceInt --------------------------------
(* Chains of script integer operations recorded from the real code.  The start   *)
(* and every operand is a native value converted to a script integer; the state   *)
(* is the value so far.  Each call logs its result and comparisons.               *)
EXTENDS ScriptInt, SessionBase

StartInt(e) == Failed        \* the first call is always "from"
Operand(v) == IF v.failed THEN Failed ELSE FromWide(v.x)
Observed(o) == IF o.k = "ok" THEN OkI(o.v) ELSE Failed
ResultOK(x, o) == o.k \in {"ok", "err"} /\ Observed(o) = x
FlagsOK(x, y, o) ==          \* comparisons of the state with the operand
  /\ o.eq = (Compare(x, y) = "eq")
  /\ o.cmp = Compare(x, y)
Apply(x, v) ==
  CASE v.op = "from" -> FromWide(v.x)
    [] v.op \in BinOps -> Bin(v.op, x, Operand(v))
    [] v.op \in {"shl", "shr"} -> Shift(v.op, x, v.n)
    [] v.op = "neg" -> Neg(x)
    [] v.op = "cmp" -> x
StepInt(e, x, c) ==
  LET y == Apply(x, c.in) o == c.res IN
  IF /\ ResultOK(y, o)
     /\ y.ok => c.text = ToString(y.v)
     \* every route to the same operation gives the same result
     /\ \A j \in 1..Len(c.also) : ResultOK(y, c.also[j])
     /\ c.in.op = "from" => ResultOK(NonNegative(y), c.uint)
     /\ c.in.op = "cmp" => \A j \in 1..Len(c.flags) : FlagsOK(x, Operand(c.in), c.flags[j])
  THEN {y} ELSE {}
===============================================================================
