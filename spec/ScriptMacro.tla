------------------------------ MODULE ScriptMacro ------------------------------
(* The compiler of script functions: which functions are accepted, what they      *)
(* emit, and the names tracked for each stack position, per variant.              *)
(*                                                                                *)
(* Function: [hdr, debug, variants, inputs, body]                                 *)
(*   variant  [name, bad, pred]     pred: sequence of conjunctions of atoms [v, pos] *)
(*   input    [n, ty, vs]           vs <<>> (all variants) or <<names>>            *)
(*   statement                                                                    *)
(*     [k = "push", e, out, src]        e: [k = "lit", op, ty], [k = "param", f, ty] or *)
(*                                      [k = "expr", fn, ty]                      *)
(*     [k = "op", name, ins, outs, arg, src]   ins/outs <<>> or <<sequence>>; an operand *)
(*                                      "" is an expression; arg: offset or type   *)
(*     [k = "block", body]     [k = "bad"]  something that is not a script statement *)
EXTENDS StackMachine

\* a tracked item: name, whether the name was made up, the number it is known to be, type
Item(n, ty) == [n |-> n, g |-> FALSE, int |-> <<>>, ty |-> ty, val |-> <<>>]
Anon(ty) == [n |-> "", g |-> TRUE, int |-> <<>>, ty |-> ty, val |-> <<>>]
NameOpt(it) == IF it.g THEN <<>> ELSE <<it.n>>

\* a conjunction is possible unless a decision taken contradicts one of its atoms
Holds(pred, atoms) ==
  pred = <<>> \/ \E i \in 1..Len(pred) : \A j \in 1..Len(pred[i]) : \A k \in 1..Len(atoms) :
                     atoms[k].v # pred[i][j].v \/ atoms[k].pos = pred[i][j].pos

-------------------------------------------------------------------------------
(* Conditionals must be balanced inside every block, with one OP_ELSE at most.    *)
IsOp(x, n) == x.k = "op" /\ x.name = n
RECURSIVE Shape(_)
ShapeStep(a, x) ==
  IF ~a.ok THEN a
  ELSE IF x.k = "bad" THEN [a EXCEPT !.ok = FALSE]
  ELSE IF x.k = "block" THEN [a EXCEPT !.ok = Shape(x.body)]
  ELSE IF x.k = "op" /\ x.name \in {"OP_IF", "OP_NOTIF"} THEN [a EXCEPT !.open = Append(@, FALSE)]
  ELSE IF IsOp(x, "OP_ELSE")
       THEN IF a.open = <<>> \/ (a.open # <<>> /\ a.open[Len(a.open)]) THEN [a EXCEPT !.ok = FALSE]
            ELSE [a EXCEPT !.open[Len(a.open)] = TRUE]
  ELSE IF IsOp(x, "OP_ENDIF") THEN IF a.open = <<>> THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.open = Take(@, Len(@) - 1)]
  ELSE a
Shape(body) == LET a == FoldLeft(ShapeStep, [ok |-> TRUE, open |-> <<>>], body) IN a.ok /\ a.open = <<>>
RECURSIVE Flat(_)
Flat(body) == CatAll([i \in 1..Len(body) |-> IF body[i].k = "block" THEN Flat(body[i].body) ELSE <<body[i]>>])

-------------------------------------------------------------------------------
(* Compiler state: vs the variants with their stacks, atoms the decisions of the  *)
(* enclosing branches, ctl the enclosing conditionals, em what was emitted,       *)
(* decl the names given to Rust values with their types; unj: outside the         *)
(* specified fragment, either answer will do.                                     *)
Fail(c) == [c EXCEPT !.ok = FALSE]
Unjudged(c) == [c EXCEPT !.unj = TRUE]
Active(c) == {i \in 1..Len(c.vs) : Holds(c.vs[i].pred, c.atoms)}
SomeActive(c) == CHOOSE i \in Active(c) : \A j \in Active(c) : i <= j
OnActive(c, f(_)) == [c EXCEPT !.vs = [i \in 1..Len(c.vs) |-> IF i \in Active(c) THEN f(c.vs[i]) ELSE c.vs[i]]]
TopOf(st, t) == st[Len(st) + 1 - t]
\* the item t from the top is the same, as far as names go, in every variant
SameName(x, y) == x.g = y.g /\ (~x.g => x.n = y.n)
Agree(c, n) == LET a == SomeActive(c) IN
  \A i \in Active(c) : Len(c.vs[i].st) >= n /\ \A t \in 1..n : SameName(TopOf(c.vs[i].st, t), TopOf(c.vs[a].st, t))
AgreeTypes(c, n) == LET a == SomeActive(c) IN
  \A i \in Active(c), t \in 1..n : LET x == TopOf(c.vs[i].st, t) y == TopOf(c.vs[a].st, t) IN x.ty = y.ty /\ x.int = y.int
PushItem(c, it) == OnActive(c, LAMBDA v : [v EXCEPT !.st = Append(@, it)])
Emit(c, x, op, names, alt) == [c EXCEPT !.em = Append(@, [op |-> op, names |-> names, alt |-> alt, src |-> x.src])]
Declare(c, n, ty) == [c EXCEPT !.decl = @ \cup {<<n, ty>>}, !.unj = @ \/ \E d \in c.decl : d[1] = n /\ d[2] # ty]

\* what a Rust expression over the parameters comes to
Clamped(i) == IF i < -1000 THEN -1000 ELSE IF i > 1000 THEN 1000 ELSE i
OfExpr(fn, ps) ==
  CASE fn = "small" -> PInt(Clamped(ps.p_int.c) + 1)
    [] fn = "cond" -> PInt(IF ps.p_bool.c = 1 THEN 7 ELSE -7)
    [] fn = "len" -> PInt(Len(ps.p_bytes.d))
    [] fn \in {"not", "match"} -> [ps.p_bool EXCEPT !.c = 1 - @]
    [] fn = "eq" -> [ps.p_bool EXCEPT !.c = IF ps.p_int.c = 3 THEN 1 ELSE 0]
    [] fn = "clone" -> ps.p_bytes
    [] fn = "block" -> PInt(42)
ExprOp(e, ps) == IF e.k = "lit" THEN e.op ELSE IF e.k = "expr" THEN OfExpr(e.fn, ps) ELSE ps[e.f]
Pushed(op) == IF op.k = "push" THEN op.d ELSE IF op.k = "bool" THEN BoolItem(op.c = 1) ELSE EncodeInt(op.c)
DoPush(c, x, ps) ==
  LET op == ExprOp(x.e, ps)
      it == [(IF x.out = <<>> THEN Anon(x.e.ty) ELSE Item(x.out[1], x.e.ty)) EXCEPT !.val = <<Pushed(op)>>]
      c1 == Emit(PushItem(c, it), x, op, <<NameOpt(it)>>, <<>>)
  IN IF x.out = <<>> THEN c1 ELSE Declare(c1, x.out[1], x.e.ty)

\* Are the operands' types fit?  Signatures, except: OP_VERIFY takes anything, OP_EQUAL takes twice the same.
TypeFits(name, tys) ==
  LET sg == Signatures[name].ins IN
  CASE name \in {"OP_EQUAL", "OP_EQUALVERIFY"} -> tys[1] = tys[2]
    [] name = "OP_VERIFY" -> TRUE
    [] OTHER -> \A i \in 1..Len(sg) : sg[i] = "G" \/ sg[i] = tys[i]
ResultType(t) == IF t \in {"A20", "A32"} THEN "A" ELSE t
\* what the results of a reordering opcode are, as argument indices
OrderOf(name) ==
  LET sg == Signatures[name] args == [i \in 1..Len(sg.ins) |-> <<i>>] s == Exec(name, Machine(args, <<>>))
  IN [i \in 1..Len(sg.outs) |-> CHOOSE k \in 1..Len(args) : args[k] = s.st[i]]
Reorders(name) == LET sg == Signatures[name] IN
  sg.ins # <<>> /\ \A i \in 1..Len(sg.outs) : sg.outs[i] = "G" /\ name \notin {"OP_IF", "OP_NOTIF", "OP_VERIFY"}
Orders == TLCEval([n \in {m \in DOMAIN Signatures \ {"OP_PICK", "OP_ROLL", "OP_TOALTSTACK", "OP_FROMALTSTACK", "OP_IF", "OP_NOTIF", "OP_ELSE", "OP_ENDIF"} :
                          Reorders(m) /\ Signatures[m].outs # <<>>} |-> OrderOf(n)])

\* the results of a non-reaching opcode on a stack, given that the arguments are there
ResultsOn(x, st) ==
  LET sg == Signatures[x.name] n == Len(sg.ins)
      ord == x.name \in DOMAIN Orders
      arg(i) == TopOf(st, n + 1 - i)
      kept(i) == ord \/ (x.name \in RetainsNames /\ i = 1)
      from(i) == IF ord THEN arg(Orders[x.name][i]) ELSE arg(1)
      ty(i) == IF kept(i) THEN from(i).ty ELSE ResultType(sg.outs[i])
      out(i) == IF x.outs = <<>> \/ (x.outs # <<>> /\ x.outs[1][i] = "__")
                THEN (IF kept(i) THEN from(i) ELSE Anon(ty(i)))
                ELSE [Item(x.outs[1][i], ty(i)) EXCEPT !.val = IF kept(i) THEN from(i).val ELSE <<>>]
  IN [i \in 1..Len(sg.outs) |-> out(i)]
LessOf(a, b) == IF a < b THEN a ELSE b
DoOther(c, x) ==
  LET sg == Signatures[x.name] n == Len(sg.ins) m == Len(sg.outs)
      st == c.vs[SomeActive(c)].st
      arg(i) == TopOf(st, n + 1 - i)
      ord == x.name \in DOMAIN Orders
      inOK(i) == LET w == x.ins[1][i] IN w \in {"", "__"} \/ (~arg(i).g /\ arg(i).n = w)
      outOK(i) == x.outs[1][i] # "__" \/ ord \/ (x.name \in RetainsNames /\ i = 1)
  IN IF n > 0 /\ Active(c) = {} THEN Fail(c)
     ELSE IF n > 0 /\ ~Agree(c, n) THEN Fail(c)
     ELSE IF x.ins # <<>> /\ (Len(x.ins[1]) # n \/ \E i \in 1..LessOf(Len(x.ins[1]), n) : ~inOK(i)) THEN Fail(c)
     ELSE IF x.outs # <<>> /\ (Len(x.outs[1]) # m \/ \E i \in 1..LessOf(Len(x.outs[1]), m) : ~outOK(i)) THEN Fail(c)
     ELSE IF n > 0 /\ ~AgreeTypes(c, n) THEN Unjudged(c)
     ELSE IF n > 0 /\ ~TypeFits(x.name, [i \in 1..n |-> arg(i).ty]) THEN Fail(c)
     ELSE Emit(OnActive(c, LAMBDA v : [v EXCEPT !.st = Take(@, Len(@) - n) \o ResultsOn(x, @)]), x, Code(ByteOf[x.name]),
               LET r == ResultsOn(x, IF n > 0 THEN st ELSE <<>>) IN [i \in 1..m |-> NameOpt(r[i])], <<>>)

Renamed(it, outs) == IF outs = <<>> THEN it ELSE [it EXCEPT !.n = outs[1][1], !.g = FALSE]
OneName(x, it) == /\ x.ins # <<>> => Len(x.ins[1]) = 1 /\ ~it.g /\ x.ins[1][1] = it.n
                  /\ x.outs # <<>> => Len(x.outs[1]) = 1
DoToAlt(c, x) ==
  IF Active(c) = {} THEN Fail(c) ELSE IF ~Agree(c, 1) THEN Fail(c)
  ELSE LET it == TopOf(c.vs[SomeActive(c)].st, 1) IN
       IF ~OneName(x, it) THEN Fail(c)
       ELSE IF ~AgreeTypes(c, 1) THEN Unjudged(c)
       ELSE LET r == Renamed(it, x.outs) IN
            Emit(OnActive(c, LAMBDA v : [v EXCEPT !.st = Take(@, Len(@) - 1), !.alt = Append(@, Renamed(TopOf(v.st, 1), x.outs))]), x, Code(ByteOf[x.name]),
                 <<>>, <<NameOpt(r)>>)
DoFromAlt(c, x) ==
  LET swap == [c EXCEPT !.vs = [i \in 1..Len(c.vs) |-> [c.vs[i] EXCEPT !.st = c.vs[i].alt, !.alt = c.vs[i].st]]] IN
  IF Active(c) = {} THEN Fail(c) ELSE IF ~Agree(swap, 1) THEN Fail(c)
  ELSE LET it == TopOf(swap.vs[SomeActive(c)].st, 1) IN
       IF ~OneName(x, it) THEN Fail(c)
       ELSE IF ~AgreeTypes(swap, 1) THEN Unjudged(c)
       ELSE LET r == Renamed(it, x.outs) IN
            Emit(OnActive(c, LAMBDA v : [v EXCEPT !.alt = Take(@, Len(@) - 1), !.st = Append(@, Renamed(TopOf(v.alt, 1), x.outs))]), x, Code(ByteOf[x.name]),
                 <<NameOpt(r)>>, <<>>)
\* n items below the top are at least there, and the same in every variant
DoReach(c, x) ==
  IF Active(c) = {} THEN Fail(c) ELSE IF ~Agree(c, 1) THEN Fail(c)
  ELSE LET a == SomeActive(c) it == TopOf(c.vs[a].st, 1) IN
       IF ~OneName([x EXCEPT !.outs = <<>>], it) THEN Fail(c)
       ELSE IF it.ty # "I" THEN Fail(c)
       ELSE IF it.int = <<>> \/ \E i \in Active(c) : TopOf(c.vs[i].st, 1).int # it.int THEN Unjudged(c)
       ELSE LET d == it.int[1]
                rest(v) == Take(v.st, Len(v.st) - 1)
                sel(v) == rest(v)[Len(rest(v)) - d]
            IN IF \E i \in Active(c) : d >= Len(rest(c.vs[i])) THEN Fail(c)
               ELSE IF \E i \in Active(c) : ~SameName(sel(c.vs[i]), sel(c.vs[a])) THEN Fail(c)
               ELSE IF x.outs # <<>> /\ Len(x.outs[1]) # 1 THEN Fail(c)
               ELSE IF \E i \in Active(c) : (sel(c.vs[i]).ty # sel(c.vs[a]).ty \/ sel(c.vs[i]).int # sel(c.vs[a]).int) THEN Unjudged(c)
               ELSE LET r == Renamed(sel(c.vs[a]), x.outs) IN
                    Emit(OnActive(c, LAMBDA v : [v EXCEPT !.st =
                           (IF x.name = "OP_PICK" THEN rest(v)
                            ELSE LET k == Len(rest(v)) - d IN Take(rest(v), k - 1) \o Drop(rest(v), k)) \o <<Renamed(sel(v), x.outs)>>]),
                         x, Code(ByteOf[x.name]), <<NameOpt(r)>>, <<>>)
\* depth of the topmost item of that name, -1 if there is none
DepthOf(st, n) == LET at == {t \in 1..Len(st) : ~TopOf(st, t).g /\ TopOf(st, t).n = n}
                  IN IF at = {} THEN -1 ELSE (CHOOSE t \in at : \A u \in at : t <= u) - 1
DoDepthOf(c, x) ==
  LET nargs == IF x.name = "depth_of" THEN 1 ELSE 2 IN
  IF x.ins = <<>> \/ (x.ins # <<>> /\ (Len(x.ins[1]) # nargs \/ x.ins[1][1] = "" \/ (nargs = 2 /\ x.ins[1][2] # ""))) THEN Fail(c)
  ELSE IF Active(c) = {} THEN Fail(c)
  ELSE LET d == DepthOf(c.vs[SomeActive(c)].st, x.ins[1][1]) IN
       IF d = -1 \/ \E i \in Active(c) : DepthOf(c.vs[i].st, x.ins[1][1]) # d THEN Fail(c)
       ELSE IF x.outs # <<>> /\ Len(x.outs[1]) # 1 THEN Unjudged(c)
       ELSE LET v == d + (IF nargs = 2 THEN x.arg ELSE 0)
                it == [(IF x.outs = <<>> THEN Anon("I") ELSE Item(x.outs[1][1], "I")) EXCEPT
                       !.int = IF nargs = 1 THEN <<d>> ELSE <<>>, !.val = <<EncodeInt(v)>>]
                c1 == Emit(PushItem(c, it), x, PInt(v), <<NameOpt(it)>>, <<>>)
            IN IF x.outs = <<>> THEN c1 ELSE Declare(c1, x.outs[1][1], "I")
\* only the type is changed; sound for an item whose name was declared once and which is not shared
\* (if every item that was ever given that name has that type already, nothing changes at all)
OneType(c, n, ty) == /\ \A d \in c.decl : d[1] = n => d[2] = ty
                     /\ \A i \in 1..Len(c.vs) : \A st \in {c.vs[i].st, c.vs[i].alt} : \A k \in 1..Len(st) : st[k].n = n => st[k].ty = ty
DoTransmute(c, x) ==
  IF x.ins = <<>> \/ (x.ins # <<>> /\ (Len(x.ins[1]) # 2 \/ x.ins[1][1] = "")) THEN Fail(c)
  ELSE IF x.outs # <<>> /\ Len(x.outs[1]) = 1 /\ x.outs[1][1] # x.ins[1][1] THEN Fail(c)
  ELSE IF Active(c) = {} THEN Fail(c)
  ELSE LET n == x.ins[1][1] st == c.vs[SomeActive(c)].st d == DepthOf(st, n) IN
       IF d = -1 \/ \E i \in Active(c) : DepthOf(c.vs[i].st, n) # d THEN Fail(c)
       ELSE IF ~c.reached /\ (x.outs = <<>> \/ (x.outs # <<>> /\ Len(x.outs[1]) = 1)) /\ OneType(c, n, x.arg) THEN c
       ELSE IF Len(c.vs) # 1 \/ c.ctl # <<>> \/ c.reached \/ (x.outs # <<>> /\ Len(x.outs[1]) # 1)
               \/ Cardinality({t \in 1..Len(st) : st[t].n = n}) # 1 THEN Unjudged(c)
       ELSE OnActive(c, LAMBDA v : [v EXCEPT !.st[Len(st) - d].ty = x.arg])

DoIf(c, x) ==
  LET c1 == DoOther(c, x) IN
  IF ~c1.ok THEN c1
  ELSE IF x.ins = <<>> THEN Fail(c) ELSE IF x.ins[1][1] = "" THEN Fail(c)
  ELSE IF x.ins[1][1] = "__" THEN Unjudged(c)
  ELSE [c1 EXCEPT !.ctl = Append(@, [name |-> x.ins[1][1], before |-> c1.vs, then |-> <<>>]),
                  !.atoms = Append(@, [v |-> x.ins[1][1], pos |-> TRUE])]
TopCtl(c) == c.ctl[Len(c.ctl)]
ToElse(c) == [c EXCEPT !.ctl[Len(c.ctl)].then = <<c.vs>>, !.vs = TopCtl(c).before,
                       !.atoms[Len(c.atoms)].pos = FALSE]
DoElse(c, x) == LET c1 == DoOther(c, x) IN IF ~c1.ok \/ c1.unj THEN c1 ELSE ToElse(c1)
SameShape(v, w) == /\ Len(v.st) = Len(w.st) /\ Len(v.alt) = Len(w.alt)
                   /\ \A i \in 1..Len(v.st) : v.st[i].ty = w.st[i].ty /\ v.st[i].int = w.st[i].int
                   /\ \A i \in 1..Len(v.alt) : v.alt[i].ty = w.alt[i].ty /\ v.alt[i].int = w.alt[i].int
\* values known on one side only are no longer known
Blur(v, w) == [w EXCEPT !.st = [i \in 1..Len(w.st) |-> [w.st[i] EXCEPT !.val = IF v.st[i].val = @ THEN @ ELSE <<>>]],
                        !.alt = [i \in 1..Len(w.alt) |-> [w.alt[i] EXCEPT !.val = IF v.alt[i].val = @ THEN @ ELSE <<>>]]]
DoEndIf(c, x) ==
  LET c0 == IF TopCtl(c).then = <<>> THEN ToElse(c) ELSE c
      c1 == DoOther(c0, x)
      outer == Take(c1.atoms, Len(c1.atoms) - 1)
      nm == TopCtl(c1).name
      th == TopCtl(c1).then[1]
      inIf(v) == Holds(v.pred, Append(outer, [v |-> nm, pos |-> TRUE]))
      inElse(v) == Holds(v.pred, Append(outer, [v |-> nm, pos |-> FALSE]))
      both == {i \in 1..Len(c1.vs) : inIf(c1.vs[i]) /\ inElse(c1.vs[i])}
      merged == [i \in 1..Len(c1.vs) |-> IF inIf(c1.vs[i]) /\ ~inElse(c1.vs[i]) THEN th[i]
                                         ELSE IF i \in both /\ SameShape(th[i], c1.vs[i]) THEN Blur(th[i], c1.vs[i])
                                         ELSE c1.vs[i]]
  IN IF ~c1.ok \/ c1.unj THEN c1
     ELSE [c1 EXCEPT !.ctl = Take(@, Len(@) - 1), !.atoms = outer, !.vs = merged,
                     !.unj = @ \/ \E i \in both : ~SameShape(th[i], c1.vs[i])]

Functions_ == {"depth_of", "depth_of_offset", "transmute"}
Usable == DOMAIN Signatures \ {"OP_NOTIF"}
Stmt(c, x, ps) ==
  IF ~c.ok \/ c.unj THEN c
  ELSE IF x.k = "push" THEN DoPush(c, x, ps)
  ELSE IF x.name = "transmute" THEN DoTransmute(c, x)
  ELSE IF x.name \in Functions_ THEN DoDepthOf(c, x)
  ELSE IF x.name = "OP_RETURN" THEN Unjudged(c)       \* ends the script: no declared effect
  ELSE IF x.name \notin Usable THEN Fail(c)
  ELSE CASE x.name = "OP_TOALTSTACK" -> DoToAlt(c, x)
         [] x.name = "OP_FROMALTSTACK" -> DoFromAlt(c, x)
         [] x.name \in {"OP_PICK", "OP_ROLL"} -> [DoReach(c, x) EXCEPT !.reached = TRUE]
         [] x.name = "OP_IF" -> DoIf(c, x)
         [] x.name = "OP_ELSE" -> DoElse(c, x)
         [] x.name = "OP_ENDIF" -> DoEndIf(c, x)
         [] OTHER -> DoOther(c, x)

-------------------------------------------------------------------------------
(* Whole functions.                                                               *)
HeaderOK(p) ==
  /\ p.hdr = "ok"
  /\ \A i \in 1..Len(p.variants) : ~p.variants[i].bad /\ \A j \in 1..Len(p.variants) : p.variants[i].name = p.variants[j].name => i = j
  /\ \A i \in 1..Len(p.inputs) : p.inputs[i].vs # <<>> =>
       \A k \in 1..Len(p.inputs[i].vs[1]) : \E j \in 1..Len(p.variants) : p.variants[j].name = p.inputs[i].vs[1][k]
  /\ \A i, j \in 1..Len(p.inputs) : (i # j /\ p.inputs[i].n = p.inputs[j].n) =>
       p.variants # <<>> /\ p.inputs[i].vs # <<>> /\ p.inputs[j].vs # <<>>
       /\ {p.inputs[i].vs[1][k] : k \in 1..Len(p.inputs[i].vs[1])} \cap {p.inputs[j].vs[1][k] : k \in 1..Len(p.inputs[j].vs[1])} = {}
UsedBy(p, v) == SelectSeq(p.inputs, LAMBDA x : x.vs = <<>> \/ (x.vs # <<>> /\ \E k \in 1..Len(x.vs[1]) : x.vs[1][k] = v))
InputItems(xs, vals) == [i \in 1..Len(xs) |-> [Item(xs[i].n, xs[i].ty) EXCEPT !.val = IF xs[i].n \in DOMAIN vals THEN <<vals[xs[i].n]>> ELSE <<>>]]
StartOf(p, vals) ==
  [ok |-> TRUE, unj |-> \E i, j \in 1..Len(p.inputs) : p.inputs[i].n = p.inputs[j].n /\ p.inputs[i].ty # p.inputs[j].ty,
   vs |-> IF p.variants = <<>> THEN <<[pred |-> <<>>, st |-> InputItems(p.inputs, vals), alt |-> <<>>]>>
          ELSE [i \in 1..Len(p.variants) |->
                  [pred |-> p.variants[i].pred, st |-> InputItems(UsedBy(p, p.variants[i].name), vals), alt |-> <<>>]],
   atoms |-> <<>>, ctl |-> <<>>, em |-> <<>>, reached |-> FALSE,
   decl |-> {<<p.inputs[i].n, p.inputs[i].ty>> : i \in 1..Len(p.inputs)}]
Compile(p, ps, vals) == FoldLeft(LAMBDA c, x : Stmt(c, x, ps), StartOf(p, vals), Flat(p.body))
NoVals == [x \in {} |-> <<>>]
===============================================================================
