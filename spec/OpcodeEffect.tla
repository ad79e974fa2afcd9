----------------------------- MODULE OpcodeEffect -----------------------------
(* When does a static description of an opcode (arguments, results, how results   *)
(* are arguments in another order, what happens to each result) agree with what   *)
(* the machine does?  A description is [ins, outs, order, delta]; order <<>> or   *)
(* <<sequence of argument indices from 0>>.                                       *)
EXTENDS StackMachine

\* distinct arguments of each type
Vals(ty) ==
  CASE ty = "I" -> << <<2>>, <<1>>, <<>>, <<3>>, <<129>>, <<0, 1>> >>
    [] ty = "B" -> << <<1>>, <<>> >>
    [] ty = "A" -> << <<7, 9>>, <<1, 2>>, <<5>>, <<>> >>
    [] ty = "G" -> << <<11>>, <<12, 13>>, <<14>>, <<2>>, <<1>>, <<>> >>
    [] OTHER -> << <<>> >>
\* argument lists: rotations of the value lists (all distinct where possible), and equal ones
ArgLists(tys) ==
  {[i \in 1..Len(tys) |-> Vals(tys[i])[1 + ((i * k + r) % Len(Vals(tys[i])))]] : k \in {0, 1, 5}, r \in 0..5}
Rest == << << >>, << <<42>> >>, << <<44>>, <<45, 46>> >> >>
AltRest == << << <<50>>, <<51>> >>, <<>> >>
HasType(b, ty) ==
  CASE ty = "I" -> IsNum(b) [] ty = "B" -> b \in {TRUTH, FALSITY} [] ty = "A20" -> Len(b) = 20 [] ty = "A32" -> Len(b) = 32
    [] OTHER -> TRUE

\* results of the machine on these arguments over this rest: [ok, outs], ok only if the rest is untouched
Effect(name, args, rest, alt) ==
  LET s == IF name \in {"OP_IF", "OP_NOTIF", "OP_ELSE", "OP_ENDIF"}
           THEN Step(Code(ByteOf[name]), [Machine(rest \o args, alt) EXCEPT !.cond = <<TRUE>>])
           ELSE Exec(name, Machine(rest \o args, alt))
      a == CASE name = "OP_TOALTSTACK" -> alt \o args
             [] name = "OP_FROMALTSTACK" -> Take(alt, Len(alt) - 1)
             [] OTHER -> alt
  IN IF ~s.ok THEN [ok |-> FALSE, clean |-> TRUE, outs |-> <<>>]
     ELSE [ok |-> TRUE, clean |-> Len(s.st) >= Len(rest) /\ Take(s.st, Len(rest)) = rest /\ s.alt = a,
           outs |-> Drop(s.st, Len(rest))]

\* PICK and ROLL reach below their argument
Reaching == {"OP_PICK", "OP_ROLL"}
DepthIs(name, d) ==       \* exactly d arguments are needed and they are replaced by the results
  /\ \A args \in ArgLists(d.ins), r \in 1..3, al \in 1..2 :
       LET e == Effect(name, args, Rest[r], AltRest[al]) IN e.ok =>
         /\ e.clean /\ Len(e.outs) = Len(d.outs)
         /\ \A i \in 1..Len(d.outs) : HasType(e.outs[i], d.outs[i])
         /\ d.order # <<>> => \A i \in 1..Len(d.outs) : e.outs[i] = args[d.order[1][i] + 1]
  /\ \E args \in ArgLists(d.ins) : Effect(name, args, <<>>, AltRest[1]).ok
  /\ d.ins # <<>> => \A args \in ArgLists(d.ins) : ~Effect(name, Tail(args), <<>>, AltRest[1]).ok
\* the results are arguments whatever the arguments are
Permutes(name, sg) == sg.outs # <<>> /\ sg.ins # <<>> /\ \A i \in 1..Len(sg.outs) : sg.outs[i] = "G" /\ name \notin {"OP_FROMALTSTACK"} \cup Reaching

\* what happens to the result at position i (from 1), when results are arguments order[i]
CopiedElsewhere(d, i) == \E j \in 1..Len(d.outs) : j # i /\ d.order[1][j] = d.order[1][i]
\* an argument with several copies is kept in its place, or else at its depth below the top
KeptAt(d, src) == LET at == {i \in 1..Len(d.outs) : d.order[1][i] + 1 = src} IN
  IF src \in at THEN src
  ELSE IF \E i \in at : Len(d.outs) - i = Len(d.ins) - src THEN CHOOSE i \in at : Len(d.outs) - i = Len(d.ins) - src
  ELSE CHOOSE i \in at : \A j \in at : i <= j
DeltaOK(name, d) ==
  /\ Len(d.delta) = Len(d.outs)
  /\ \A i \in 1..Len(d.outs) :
       IF d.order # <<>>
       THEN LET src == d.order[1][i] + 1
                before == Len(d.ins) - src          \* depth of the item before and after
                after == Len(d.outs) - i
            IN CASE i # KeptAt(d, src) -> d.delta[i] = "Added"
                 [] d.delta[i] = "Observed" -> src = i /\ CopiedElsewhere(d, i)
                 [] d.delta[i] = "Untouched" -> src = i /\ ~CopiedElsewhere(d, i)
                 [] d.delta[i] = "Moved" -> src # i /\ after < before
                 [] d.delta[i] = "MovedIndirectly" -> src # i /\ after >= before
                 [] OTHER -> FALSE
       ELSE CASE name \in RetainsNames -> d.delta[i] = IF i = 1 THEN "Observed" ELSE "Added"
              [] name = "OP_ROLL" -> d.delta[i] = "Moved"
              [] name \in {"OP_PICK", "OP_FROMALTSTACK", "OP_DEPTH"} \cup ConstNames -> d.delta[i] = "Added"
              [] OTHER -> d.delta[i] = "Changed"
OrderOK(d) == d.order # <<>> => Len(d.order[1]) = Len(d.outs) /\ \A i \in 1..Len(d.outs) : d.order[1][i] \in 0..(Len(d.ins) - 1)

Describes(name, d) ==
  LET sg == Signatures[name] IN
  /\ d.ins = sg.ins /\ d.outs = sg.outs
  /\ OrderOK(d)
  /\ (d.outs # <<>> => ((d.order # <<>>) = Permutes(name, sg)))
  /\ name \in Reaching \/ DepthIs(name, d)
  /\ DeltaOK(name, d)
===============================================================================
