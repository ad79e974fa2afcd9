--------------------------------- MODULE MCJson ---------------------------------
(* Every small byte array table with every way its entries can refer to each other *)
(* (in range, out of range, cyclic, shared).  A decoder that resolves entries depth *)
(* first and remembers what it resolved is modelled step by step and must agree with *)
(* the meaning of references (Resolve); writing the resolved array out again as a    *)
(* table and reading it back must give the same array.  The tables are replayed.     *)
EXTENDS JsonTx, Json, IOUtils
CONSTANTS Entries, Lists      \* entries per table, longest list of references

Refs == 0..Entries                                     \* Entries itself: out of range
RefLists == UNION { [1..k -> Refs] : k \in 0..Lists }
Pre == {<<>>} \cup { <<l>> : l \in RefLists }          \* an optional list
U8B(i) == LE(i, 8)
Entry(i, p) == [d |-> U8B(i), f |-> i % 3, n |-> IF i % 2 = 0 THEN <<>> ELSE <<U8B(0)>>,
                p |-> [x \in 1..Len(p) |-> [y \in 1..Len(p[x]) |-> U8B(p[x][y])]]]

VARIABLES table, ph, stack, memo, steps
vars == <<table, ph, stack, memo, steps>>
Tables(tb) == [b64 |-> [i \in 1..Entries |-> B64Text(<<i>>)], entries |-> [i \in 1..Len(tb) |-> Entry(i - 1, tb[i])],
               strings |-> <<<<97>>>>]
Meaning == Resolve(Tables(table), U8B(0), Entries)

Init == table = <<>> /\ ph = "table" /\ stack = <<>> /\ memo = << >> /\ steps = 0
Fill == /\ ph = "table" /\ Len(table) < Entries
        /\ \E p \in Pre : table' = Append(table, p)
        /\ UNCHANGED <<ph, stack, memo, steps>>
Begin == /\ ph = "table" /\ Len(table) = Entries
         /\ ph' = "walk" /\ stack' = << <<0, 1>> >>     \* (entry, next reference)
         /\ memo' = [i \in {} |-> i] /\ UNCHANGED <<table, steps>>
Top == stack[Len(stack)]
RefsOf(i) == IF table[i + 1] = <<>> THEN <<>> ELSE table[i + 1][1]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Advance(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)] = <<@[1], @[2] + 1>>]
Arrays(i) == [d |-> <<i + 1>>, n |-> IF i % 2 = 0 THEN <<>> ELSE <<<<97>>>>, f |-> FunctionNames[(i % 3) + 1],
              p |-> IF table[i + 1] = <<>> THEN <<>> ELSE <<[y \in 1..Len(table[i + 1][1]) |-> memo[table[i + 1][1][y]]]>>]
Walk ==
  /\ ph = "walk"
  /\ steps' = steps + 1
  /\ UNCHANGED table
  /\ LET i == Top[1] k == Top[2] IN
     IF Len(stack) > Entries THEN ph' = "bad" /\ UNCHANGED <<stack, memo>>       \* a cycle
     ELSE IF k > Len(RefsOf(i))
     THEN /\ memo' = [x \in DOMAIN memo \cup {i} |-> IF x = i THEN Arrays(i) ELSE memo[x]]
          /\ stack' = Advance(Pop) /\ ph' = IF Len(stack) = 1 THEN "good" ELSE "walk"
     ELSE LET next == RefsOf(i)[k] IN
          IF next >= Entries THEN ph' = "bad" /\ UNCHANGED <<stack, memo>>
          ELSE IF next \in DOMAIN memo THEN stack' = Advance(stack) /\ UNCHANGED <<memo, ph>>
          ELSE stack' = Append(stack, <<next, 1>>) /\ UNCHANGED <<memo, ph>>
Next == Fill \/ Begin \/ Walk
Spec == Init /\ [][Next]_vars

\* resolving is linear in the table: nothing is resolved twice
Bounded == steps <= Entries * (Lists + 2) + 1 /\ Len(stack) <= Entries + 1
Agree == /\ ph = "good" => Meaning.ok /\ Meaning.v = memo[0]
         /\ ph = "bad" => ~Meaning.ok
\* more fuel changes nothing
Fuel == ph \in {"good", "bad"} => Resolve(Tables(table), U8B(0), Entries + 2) = Meaning

\* the encoder: parts first, then the array itself
RECURSIVE Insert(_, _), InsertAll(_, _, _)
InsertAll(tb, ps, acc) == IF ps = <<>> THEN [tb |-> tb, ix |-> acc]
                          ELSE LET r == Insert(tb, ps[1]) IN InsertAll(r.tb, Tail(ps), Append(acc, r.ix))
Intern(s, x) == LET at == {i \in 1..Len(s) : s[i] = x} IN
                IF at = {} THEN [s |-> Append(s, x), i |-> Len(s)] ELSE [s |-> s, i |-> (CHOOSE i \in at : TRUE) - 1]
Insert(tb, a) ==
  LET parts == IF a.p = <<>> THEN [tb |-> tb, ix |-> <<>>] ELSE InsertAll(tb, a.p[1], <<>>)
      nm == IF a.n = <<>> THEN [s |-> parts.tb.strings, i |-> 0] ELSE Intern(parts.tb.strings, a.n[1])
      dt == Intern(parts.tb.b64, B64Text(a.d))
      f == (CHOOSE i \in 1..Len(FunctionNames) : FunctionNames[i] = a.f) - 1
      e == [d |-> U8B(dt.i), f |-> f, n |-> IF a.n = <<>> THEN <<>> ELSE <<U8B(nm.i)>>,
            p |-> IF a.p = <<>> THEN <<>> ELSE <<[y \in 1..Len(parts.ix) |-> U8B(parts.ix[y])]>>]
  IN [tb |-> [b64 |-> dt.s, entries |-> Append(parts.tb.entries, e), strings |-> nm.s], ix |-> Len(parts.tb.entries)]
RoundTrip == ph = "good" =>
  LET r == Insert([b64 |-> <<>>, entries |-> <<>>, strings |-> <<>>], memo[0]) IN
  ArrayAt(r.tb, U8B(r.ix)) = Yes(memo[0])
Emit == IOEnv.EMIT = "yes" /\ ph \in {"good", "bad"} => PrintT(ToJson([dom |-> "json", table |-> table]))
===============================================================================
