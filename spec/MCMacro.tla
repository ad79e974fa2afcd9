-------------------------------- MODULE MCMacro --------------------------------
(* Every script function of up to Depth statements over a small alphabet, in a    *)
(* few settings of inputs and variants.  For each accepted one, and each variant  *)
(* and input values that satisfy its condition, what the compiler tracked is what *)
(* the interpreter has on its stacks after the emitted operations.                *)
EXTENDS ScriptMacro, Json, IOUtils
CONSTANTS Depth, Sample       \* one in Sample functions is printed for replay on the real macro
OpS(n, i, o) == [k |-> "op", name |-> n, ins |-> i, outs |-> o, arg |-> 0, src |-> ""]
Lit(op, ty, o) == [k |-> "push", e |-> [k |-> "lit", op |-> op, ty |-> ty], out |-> o, src |-> ""]
Plain(n) == OpS(n, <<>>, <<>>)
Alphabet == <<
  Lit(PInt(3), "I", <<"i1">>), Lit([k |-> "bool", c |-> 1, d |-> <<>>, m |-> FALSE], "B", <<>>), Lit([k |-> "bool", c |-> 0, d |-> <<>>, m |-> FALSE], "B", <<"b1">>),
  Plain("OP_DUP"), OpS("OP_SWAP", <<>>, << <<"__", "j1">> >>), Plain("OP_DROP"), Plain("OP_1ADD"), OpS("OP_ADD", <<>>, << <<"i2">> >>), Plain("OP_NOT"),
  OpS("OP_TOALTSTACK", <<>>, << <<"m">> >>), Plain("OP_FROMALTSTACK"), OpS("OP_FROMALTSTACK", << <<"m">> >>, <<>>),
  OpS("depth_of", << <<"x">> >>, <<>>), OpS("OP_PICK", <<>>, <<>>), OpS("OP_ROLL", <<>>, << <<"y">> >>), OpS("OP_OVER", <<>>, <<>>), OpS("OP_NIP", <<>>, <<>>),
  OpS("OP_SIZE", <<>>, << <<"__", "n">> >>), OpS("OP_EQUAL", <<>>, <<>>), OpS("OP_VERIFY", <<>>, <<>>),
  OpS("OP_IF", << <<"c0">> >>, <<>>), OpS("OP_IF", << <<"b1">> >>, <<>>), OpS("OP_IF", << <<"c1">> >>, <<>>), Plain("OP_ELSE"), Plain("OP_ENDIF"),
  OpS("OP_2DUP", << <<"x", "__">> >>, <<>>), OpS("OP_TUCK", << <<"__", "__">> >>, <<>>) >>
In(n, ty, vs) == [n |-> n, ty |-> ty, vs |-> vs, id |-> "", src |-> ""]
At(v, pos) == [v |-> v, pos |-> pos]
Var(n, pred) == [name |-> n, bad |-> FALSE, pred |-> pred]
Settings == <<
  [variants |-> <<>>, inputs |-> << In("x", "I", <<>>), In("c0", "B", <<>>) >>],
  [variants |-> <<>>, inputs |-> << In("x", "A", <<>>), In("c1", "B", <<>>), In("c0", "B", <<>>) >>],
  [variants |-> << Var("V", << << At("c0", TRUE) >> >>), Var("W", << << At("c0", FALSE) >> >>) >>,
   inputs |-> << In("x", "I", << <<"V">> >>), In("c0", "B", <<>>) >>],
  [variants |-> << Var("V", << << At("c0", TRUE) >> >>), Var("W", << << At("c0", FALSE) >> >>) >>,
   inputs |-> << In("x", "I", << <<"V">> >>), In("z", "A", << <<"W">> >>), In("x", "I", << <<"W">> >>), In("c0", "B", <<>>) >>],
  [variants |-> << Var("V", << << At("c0", TRUE), At("c1", TRUE) >> >>), Var("W", << << At("c1", FALSE) >>, << At("c0", FALSE) >> >>) >>,
   inputs |-> << In("x", "I", << <<"V">> >>), In("c1", "B", <<>>), In("c0", "B", <<>>) >>],
  [variants |-> << Var("U", << << At("c1", TRUE) >> >>), Var("V", << << At("c1", FALSE), At("c0", TRUE) >> >>), Var("W", << << At("c1", FALSE), At("c0", FALSE) >> >>) >>,
   inputs |-> << In("x", "I", << <<"U", "W">> >>), In("c0", "B", << <<"V", "W">> >>), In("c1", "B", <<>>) >>] >>
Prog(s, b) == [hdr |-> "ok", debug |-> "default", variants |-> Settings[s].variants, inputs |-> Settings[s].inputs,
               body |-> [i \in 1..Len(b) |-> Alphabet[b[i]]]]
NoPs == [p_int |-> PInt(0)]
VARIABLES set, body, lim
vars == <<set, body, lim>>
\* functions also start inside branches: 21 is OP_IF c0, 23 OP_IF c1, 24 OP_ELSE, 25 OP_ENDIF, 1 a number, 6 OP_DROP
Starts == {<<>>, <<21>>, <<21, 1, 24>>, <<21, 6, 24>>, <<23, 24>>, <<23, 24, 21>>, <<21, 23, 6, 25, 24>>, <<23, 6, 24, 21, 1, 24>>}
C(b) == Compile(Prog(set, b), NoPs, NoVals)
Opens(b) == Cardinality({i \in 1..Len(b) : IsOp(Alphabet[b[i]], "OP_IF")}) - Cardinality({i \in 1..Len(b) : IsOp(Alphabet[b[i]], "OP_ENDIF")})
\* structure that can still be completed
Sane(b) == LET a == FoldLeft(ShapeStep, [ok |-> TRUE, open |-> <<>>], Prog(set, b).body) IN a.ok
Going(b) == Sane(b) /\ LET c == C(b) IN c.ok /\ ~c.unj
Init == set \in 1..Len(Settings) /\ body \in Starts /\ lim = Len(body) + (IF body = <<>> THEN Depth ELSE Depth - 1)
Next == /\ Len(body) < lim /\ Going(body)
        /\ \E i \in 1..Len(Alphabet) : body' = Append(body, i)
        /\ UNCHANGED <<set, lim>>
Spec == Init /\ [][Next]_vars

ValuesOf(ty) == CASE ty = "I" -> {EncodeInt(0), EncodeInt(2)} [] ty = "B" -> {TRUTH, FALSITY} [] ty = "A" -> {<<7, 8>>}
Assignments(xs) == LET ns == {xs[i].n : i \in 1..Len(xs)} ty(n) == (CHOOSE i \in 1..Len(xs) : xs[i].n = n)
                   IN {f \in [ns -> {EncodeInt(0), EncodeInt(2), TRUTH, FALSITY, <<7, 8>>}] : \A n \in ns : f[n] \in ValuesOf(xs[ty(n)].ty)}
\* the values agree with a conjunction of the predicate, as far as they decide it
Meets(pred, f) == pred = <<>> \/ \E i \in 1..Len(pred) : \A j \in 1..Len(pred[i]) :
                     pred[i][j].v \in DOMAIN f => (Truthy(f[pred[i][j].v]) = pred[i][j].pos)
HasType(b, ty) == CASE ty = "I" -> IsNum(b) [] ty = "B" -> b \in {TRUTH, FALSITY} [] OTHER -> TRUE
Matches(items, st) == /\ Len(items) = Len(st)
                      /\ \A i \in 1..Len(st) : /\ items[i].val # <<>> => st[i] = items[i].val[1]
                                               /\ items[i].int # <<>> => st[i] = EncodeInt(items[i].int[1])
                                               /\ HasType(st[i], items[i].ty)
SoundFor(c0, v, xs, f) ==
  LET p == Prog(set, body) c == Compile(p, NoPs, f)
      s == Run([i \in 1..Len(c.em) |-> c.em[i].op], Machine([i \in 1..Len(xs) |-> f[xs[i].n]], <<>>))
  IN (s.ok /\ Executing(s) /\ v \in Active(c)) => Matches(c.vs[v].st, s.st) /\ Matches(c.vs[v].alt, s.alt)
\* a variant follows no branch its condition excludes
FollowsFor(v, xs, f) ==
  LET c == C(body) s == Run([i \in 1..Len(c.em) |-> c.em[i].op], Machine([i \in 1..Len(xs) |-> f[xs[i].n]], <<>>))
  IN (s.ok /\ Executing(s)) => v \in Active(c)
Sound ==
  Going(body) =>
    LET c == C(body) p == Prog(set, body) IN
    \A v \in 1..Len(c.vs) : LET xs == IF p.variants = <<>> THEN p.inputs ELSE UsedBy(p, p.variants[v].name) IN
      \A f \in Assignments(xs) : (p.variants = <<>> \/ Meets(p.variants[v].pred, f)) => SoundFor(c, v, xs, f) /\ FollowsFor(v, xs, f)
\* accepted functions run with the emitted operations alone for every opcode that cannot fail on typed operands
EmitCase ==
  LET h == FoldLeft(LAMBDA a, x : (a * 31 + x) % 100003, set, body)
      close == Opens(body)
  IN (IOEnv.EMIT = "yes" /\ body # <<>> /\ h % Sample = 0)
       => PrintT(ToJson([dom |-> "macro", prog |-> Prog(set, body), close |-> IF close > 0 THEN close ELSE 0]))
===============================================================================
