------------------------------ MODULE TraceMacro ------------------------------
(* A line is a script function that was given to the macro: whether it was        *)
(* accepted, and then what the built script and input values consist of.          *)
EXTENDS ScriptMacro, TraceBase
Widths == <<30, 40, 60, 80>>
Tagged(p, o, op, names, alt, src) ==
  /\ o.op = op
  /\ IF p.debug = "false"
     THEN o.names = <<>> /\ o.alt = <<>> /\ o.src = <<>> /\ o.widths = <<>> /\ o.at = [file |-> "", line |-> 0, inside |-> FALSE, col |-> 0]
     ELSE /\ o.names = <<names>> /\ o.alt = <<alt>> /\ o.src = <<src>> /\ o.widths = Widths
          /\ o.at.file = "own" /\ o.at.inside /\ o.at.col >= 1
InputOps(p, xs, vals, os) ==
  /\ Len(os) = Len(xs)
  /\ \A i \in 1..Len(xs) : Tagged(p, os[i], vals[xs[i].id], << <<xs[i].n>> >>, <<>>, xs[i].src)
RunOK(p, c, r, vals) ==
  /\ Len(r.ops) = Len(c.em)
  /\ \A i \in 1..Len(c.em) : Tagged(p, r.ops[i], c.em[i].op, c.em[i].names, c.em[i].alt, c.em[i].src)
  /\ IF p.variants = <<>> THEN Len(r.vars) = 1 /\ InputOps(p, p.inputs, vals, r.vars[1])
     ELSE /\ Len(r.vars) = Len(p.variants)
          /\ \A i \in 1..Len(p.variants) : InputOps(p, UsedBy(p, p.variants[i].name), vals, r.vars[i])
AcceptMacro(e) ==
  LET o == e.out p == e.prog IN
  /\ o.k = "ok"
  /\ IF ~HeaderOK(p) \/ ~Shape(p.body) THEN ~o.acc
     ELSE LET c == Compile(p, e.ps[1], NoVals) IN
          IF c.unj THEN TRUE ELSE IF ~c.ok THEN ~o.acc
          ELSE /\ o.acc /\ Len(o.runs) = Len(e.ps)
               /\ \A k \in 1..Len(e.ps) : RunOK(p, Compile(p, e.ps[k], NoVals), o.runs[k], e.vals[k])
DeviationMacro(e) == ""
===============================================================================
