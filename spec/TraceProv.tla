------------------------------- MODULE TraceProv -------------------------------
(* Sessions over a growing list of annotated arrays (registers).  Every call     *)
(* appends its results, which must equal the specification's, annotations        *)
(* included.                                                                     *)
EXTENDS HashTypes, SessionBase

StartProv(e) == <<>>
R(s, k) == s[k + 1]
\* <<TRUE, results>> or <<FALSE>> for a clean error
Call(s, v) ==
  CASE v.op = "new" -> <<TRUE, <<Arr(v.d, v.n, "Plain", <<>>)>>>>
    [] v.op = "concat" -> <<TRUE, <<ConcatAs(R(s, v.a), R(s, v.b), v.n)>>>>
    [] v.op = "parts" -> <<TRUE, <<FromParts([i \in 1..Len(v.rs) |-> R(s, v.rs[i])])>>>>
    [] v.op = "split" -> IF SplitOK(R(s, v.a), v.at) THEN LET h == SplitAt(R(s, v.a), v.at) IN <<TRUE, <<h.l, h.r>>>> ELSE <<FALSE>>
    [] v.op = "named" -> <<TRUE, <<Named(R(s, v.a), v.n)>>>>
    [] v.op = "hash" -> <<TRUE, <<HashArr(v.f, R(s, v.a))>>>>
    [] v.op = "hashcat" -> <<TRUE, <<Concat(HashArr(v.f, R(s, v.a)), R(s, v.b))>>>>
    [] v.op = "apply" -> <<TRUE, <<ApplyF(R(s, v.a), v.d, v.f)>>>>
    [] v.op = "fixed" -> IF Len(v.d) = v.w THEN <<TRUE, <<Arr(v.d, v.n, "Plain", <<>>)>>>> ELSE <<FALSE>>
    [] v.op = "refix" -> LET a == R(s, v.a) IN
                         IF Len(a.d) = v.w THEN <<TRUE, <<IF v.n = <<>> THEN a ELSE Named(a, v.n)>>>> ELSE <<FALSE>>
    [] v.op = "pad" -> IF PadFits(v.v, v.len) THEN <<TRUE, <<Padded(v.v, v.len)>>>> ELSE <<FALSE>>
\* a very wide pad is reported in summary
WidePad(v, o) == o.k = "ok" /\ o.len = v.len /\ o.zeros /\ o.head = LE(IF v.v < 0 THEN -v.v ELSE v.v, 4)
                 /\ o.last = (IF v.v < 0 THEN 128 ELSE 0)
\* every view of an array shows the same
Look(a, v, o) ==
  /\ o.k = "ok" /\ \A i \in 1..Len(o.views) : o.views[i] = a.d
  /\ o.len = Len(a.d) /\ o.hex = HexText(a.d) /\ o.show = o.hex /\ o.part = SubSeq(a.d, v.from + 1, v.to)
  /\ o.arc = a.p /\ o.name = a.n
\* a derivation of very many steps, reported in summary
Chain(v, o) == /\ o.k = "ok" /\ o.steps = v.n /\ o.start = v.d
               /\ o.d = FoldLeft(LAMBDA x, i : HashOf(v.f, x), v.d, [i \in 1..v.n |-> i])
StepProv(e, s, c) ==
  IF c.in.op = "chain" THEN (IF Chain(c.in, c.res) THEN {s} ELSE {}) ELSE
  IF c.in.op = "widepad" THEN (IF WidePad(c.in, c.res) THEN {s} ELSE {})
  ELSE IF c.in.op = "look" THEN (IF Look(R(s, c.in.a), c.in, c.res) THEN {s} ELSE {})
  ELSE LET x == Call(s, c.in) IN
       IF x[1] THEN (IF /\ c.res.k = "ok" /\ c.res.v = x[2]
                        /\ \A i \in 1..Len(x[2]) : (\A j \in 1..Len(s) : c.eqs[i][j] = (x[2][i].d = s[j].d))
                     THEN {s \o x[2]} ELSE {})
       ELSE (IF c.res.k = "err" THEN {s} ELSE {})
===============================================================================
