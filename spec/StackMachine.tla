----------------------------- MODULE StackMachine -----------------------------
(* The script interpreter: main stack, alternative stack, nested conditionals.    *)
(* Stack items are byte strings.  Signature checks succeed exactly when the       *)
(* signature is not empty; lock time checks succeed on non-negative numbers.      *)
EXTENDS OpcodeTable, Hashes, ScriptInt

Machine(st, alt) == [ok |-> TRUE, st |-> st, alt |-> alt, cond |-> <<>>]
Bad == [ok |-> FALSE, st |-> <<>>, alt |-> <<>>, cond |-> <<>>]
TRUTH == <<1>>
FALSITY == <<>>
BoolItem(x) == IF x THEN TRUTH ELSE FALSITY
Truthy(b) == \E i \in 1..Len(b) : b[i] # 0 /\ ~(i = Len(b) /\ b[i] = 128)
IsNum(b) == Len(b) <= 4 /\ IsMinimalInt(b)
Num(b) == Denotes(b).v
Executing(s) == \A i \in 1..Len(s.cond) : s.cond[i]

\* t counts from the top: It(s, 1) is the top item
It(s, t) == s.st[Len(s.st) + 1 - t]
Has(s, n) == Len(s.st) >= n
Below(s, n) == Take(s.st, Len(s.st) - n)
Give(s, n, items) == [s EXCEPT !.st = Below(s, n) \o items]
\* replace the top n items by the items, given that there are that many and the guard holds
Do(s, n, guard, items) == IF Has(s, n) THEN (IF guard THEN Give(s, n, items) ELSE Bad) ELSE Bad
BitsOf(x) == [i \in 0..7 |-> (x \div (2 ^ i)) % 2]
ByteFold(op, x, y) ==
  LET p == BitsOf(x) q == BitsOf(y)
      r(i) == CASE op = "and" -> p[i] * q[i] [] op = "or" -> IF p[i] + q[i] > 0 THEN 1 ELSE 0 [] op = "xor" -> (p[i] + q[i]) % 2
  IN r(0) + 2*r(1) + 4*r(2) + 8*r(3) + 16*r(4) + 32*r(5) + 64*r(6) + 128*r(7)
Bitwise2(op, x, y) == [i \in 1..Len(x) |-> ByteFold(op, x[i], y[i])]
Numeric1(s, r(_)) == IF Has(s, 1) /\ IsNum(It(s, 1)) THEN LET v == r(Num(It(s, 1))) IN IF v.ok THEN Give(s, 1, <<EncodeInt(v.v)>>) ELSE Bad ELSE Bad
Numeric2(s, r(_, _)) == IF Has(s, 2) /\ IsNum(It(s, 1)) /\ IsNum(It(s, 2))
                        THEN LET v == r(Num(It(s, 2)), Num(It(s, 1))) IN IF v.ok THEN Give(s, 2, <<EncodeInt(v.v)>>) ELSE Bad ELSE Bad
Bool(x) == OkI(IF x THEN 1 ELSE 0)
HashOp(s, h(_)) == IF Has(s, 1) THEN Give(s, 1, <<h(It(s, 1))>>) ELSE Bad
\* the shortest form of x, padded with zeros before the sign bit to n bytes
Widen(x, n) == LET m == MinimallyEncode(x) IN
  IF Len(m) = n THEN m
  ELSE IF m = <<>> THEN Zeros(n)
  ELSE LET k == Len(m) sg == m[k] - (m[k] % 128)
       IN [m EXCEPT ![k] = @ % 128] \o Zeros(n - k - 1) \o <<sg>>

Exec(name, s) ==
  CASE name \in ConstNames -> Give(s, 0, <<EncodeInt(ToInteger(Code(ByteOf[name])).v)>>)
    [] name \in NoEffectNames \ {"OP_ELSE", "OP_ENDIF"} -> s
    [] name = "OP_VERIFY" -> IF Has(s, 1) THEN (IF Truthy(It(s, 1)) THEN Give(s, 1, <<>>) ELSE Bad) ELSE Bad
    [] name = "OP_TOALTSTACK" -> IF Has(s, 1) THEN [Give(s, 1, <<>>) EXCEPT !.alt = Append(s.alt, It(s, 1))] ELSE Bad
    [] name = "OP_FROMALTSTACK" -> IF s.alt # <<>>
         THEN [Give(s, 0, <<s.alt[Len(s.alt)]>>) EXCEPT !.alt = Take(s.alt, Len(s.alt) - 1)] ELSE Bad
    [] name = "OP_2DROP" -> Do(s, 2, TRUE, <<>>)
    [] name = "OP_2DUP" -> IF Has(s, 2) THEN Give(s, 0, <<It(s, 2), It(s, 1)>>) ELSE Bad
    [] name = "OP_3DUP" -> IF Has(s, 3) THEN Give(s, 0, <<It(s, 3), It(s, 2), It(s, 1)>>) ELSE Bad
    [] name = "OP_2OVER" -> IF Has(s, 4) THEN Give(s, 0, <<It(s, 4), It(s, 3)>>) ELSE Bad
    [] name = "OP_2ROT" -> IF Has(s, 6) THEN Give(s, 6, <<It(s, 4), It(s, 3), It(s, 2), It(s, 1), It(s, 6), It(s, 5)>>) ELSE Bad
    [] name = "OP_2SWAP" -> IF Has(s, 4) THEN Give(s, 4, <<It(s, 2), It(s, 1), It(s, 4), It(s, 3)>>) ELSE Bad
    [] name = "OP_IFDUP" -> IF Has(s, 1) THEN (IF Truthy(It(s, 1)) THEN Give(s, 0, <<It(s, 1)>>) ELSE s) ELSE Bad
    [] name = "OP_DEPTH" -> Give(s, 0, <<EncodeInt(Len(s.st))>>)
    [] name = "OP_DROP" -> Do(s, 1, TRUE, <<>>)
    [] name = "OP_DUP" -> IF Has(s, 1) THEN Give(s, 0, <<It(s, 1)>>) ELSE Bad
    [] name = "OP_NIP" -> IF Has(s, 2) THEN Give(s, 2, <<It(s, 1)>>) ELSE Bad
    [] name = "OP_OVER" -> IF Has(s, 2) THEN Give(s, 0, <<It(s, 2)>>) ELSE Bad
    [] name \in {"OP_PICK", "OP_ROLL"} ->
         IF ~Has(s, 2) \/ ~IsNum(It(s, 1)) THEN Bad
         ELSE LET n == Num(It(s, 1)) rest == Below(s, 1) IN
              IF n < 0 \/ n >= Len(rest) THEN Bad
              ELSE LET i == Len(rest) - n IN
                   [s EXCEPT !.st = (IF name = "OP_PICK" THEN rest ELSE Take(rest, i - 1) \o Drop(rest, i)) \o <<rest[i]>>]
    [] name = "OP_ROT" -> IF Has(s, 3) THEN Give(s, 3, <<It(s, 2), It(s, 1), It(s, 3)>>) ELSE Bad
    [] name = "OP_SWAP" -> IF Has(s, 2) THEN Give(s, 2, <<It(s, 1), It(s, 2)>>) ELSE Bad
    [] name = "OP_TUCK" -> IF Has(s, 2) THEN Give(s, 2, <<It(s, 1), It(s, 2), It(s, 1)>>) ELSE Bad
    [] name = "OP_CAT" -> IF Has(s, 2) THEN Give(s, 2, <<It(s, 2) \o It(s, 1)>>) ELSE Bad
    [] name = "OP_SPLIT" -> IF Has(s, 2) /\ IsNum(It(s, 1)) /\ Num(It(s, 1)) \in 0..Len(It(s, 2))
         THEN Give(s, 2, <<Take(It(s, 2), Num(It(s, 1))), Drop(It(s, 2), Num(It(s, 1)))>>) ELSE Bad
    [] name = "OP_NUM2BIN" -> IF Has(s, 2) /\ IsNum(It(s, 1)) /\ Num(It(s, 1)) \in 0..520
         THEN (IF Len(MinimallyEncode(It(s, 2))) <= Num(It(s, 1)) THEN Give(s, 2, <<Widen(It(s, 2), Num(It(s, 1)))>>) ELSE Bad) ELSE Bad
    [] name = "OP_BIN2NUM" -> IF Has(s, 1) THEN (IF Len(MinimallyEncode(It(s, 1))) <= 4 THEN Give(s, 1, <<MinimallyEncode(It(s, 1))>>) ELSE Bad) ELSE Bad
    [] name = "OP_SIZE" -> IF Has(s, 1) THEN Give(s, 0, <<EncodeInt(Len(It(s, 1)))>>) ELSE Bad
    [] name \in {"OP_AND", "OP_OR", "OP_XOR"} -> IF Has(s, 2) /\ Len(It(s, 1)) = Len(It(s, 2))
         THEN Give(s, 2, <<Bitwise2(CASE name = "OP_AND" -> "and" [] name = "OP_OR" -> "or" [] OTHER -> "xor", It(s, 2), It(s, 1))>>) ELSE Bad
    [] name = "OP_EQUAL" -> IF Has(s, 2) THEN Give(s, 2, <<BoolItem(It(s, 1) = It(s, 2))>>) ELSE Bad
    [] name = "OP_EQUALVERIFY" -> IF Has(s, 2) THEN Do(s, 2, It(s, 1) = It(s, 2), <<>>) ELSE Bad
    [] name = "OP_1ADD" -> Numeric1(s, LAMBDA x : AddI(x, 1))
    [] name = "OP_1SUB" -> Numeric1(s, LAMBDA x : SubI(x, 1))
    [] name = "OP_NEGATE" -> Numeric1(s, LAMBDA x : NegI(x))
    [] name = "OP_ABS" -> Numeric1(s, LAMBDA x : OkI(AbsI(x)))
    [] name = "OP_NOT" -> Numeric1(s, LAMBDA x : Bool(x = 0))
    [] name = "OP_0NOTEQUAL" -> Numeric1(s, LAMBDA x : Bool(x # 0))
    [] name = "OP_ADD" -> Numeric2(s, AddI)
    [] name = "OP_SUB" -> Numeric2(s, SubI)
    [] name = "OP_DIV" -> Numeric2(s, DivI)
    [] name = "OP_MOD" -> Numeric2(s, RemI)
    [] name = "OP_BOOLAND" -> Numeric2(s, LAMBDA x, y : Bool(x # 0 /\ y # 0))
    [] name = "OP_BOOLOR" -> Numeric2(s, LAMBDA x, y : Bool(x # 0 \/ y # 0))
    [] name = "OP_NUMEQUAL" -> Numeric2(s, LAMBDA x, y : Bool(x = y))
    [] name = "OP_NUMEQUALVERIFY" -> IF Has(s, 2) /\ IsNum(It(s, 1)) /\ IsNum(It(s, 2)) THEN Do(s, 2, Num(It(s, 1)) = Num(It(s, 2)), <<>>) ELSE Bad
    [] name = "OP_NUMNOTEQUAL" -> Numeric2(s, LAMBDA x, y : Bool(x # y))
    [] name = "OP_LESSTHAN" -> Numeric2(s, LAMBDA x, y : Bool(x < y))
    [] name = "OP_GREATERTHAN" -> Numeric2(s, LAMBDA x, y : Bool(x > y))
    [] name = "OP_LESSTHANOREQUAL" -> Numeric2(s, LAMBDA x, y : Bool(x <= y))
    [] name = "OP_GREATERTHANOREQUAL" -> Numeric2(s, LAMBDA x, y : Bool(x >= y))
    [] name = "OP_MIN" -> Numeric2(s, LAMBDA x, y : OkI(IF x < y THEN x ELSE y))
    [] name = "OP_MAX" -> Numeric2(s, LAMBDA x, y : OkI(IF x > y THEN x ELSE y))
    [] name = "OP_WITHIN" -> IF Has(s, 3) /\ \A t \in 1..3 : IsNum(It(s, t))
         THEN Give(s, 3, <<BoolItem(Num(It(s, 2)) <= Num(It(s, 3)) /\ Num(It(s, 3)) < Num(It(s, 1)))>>) ELSE Bad
    [] name = "OP_RIPEMD160" -> HashOp(s, Ripemd160)
    [] name = "OP_SHA1" -> HashOp(s, Sha1)
    [] name = "OP_SHA256" -> HashOp(s, Sha256)
    [] name = "OP_HASH160" -> HashOp(s, Hash160)
    [] name = "OP_HASH256" -> HashOp(s, Sha256d)
    [] name = "OP_REVERSEBYTES" -> HashOp(s, Rev)
    [] name = "OP_CHECKSIG" -> IF Has(s, 2) THEN Give(s, 2, <<BoolItem(It(s, 2) # <<>>)>>) ELSE Bad
    [] name = "OP_CHECKSIGVERIFY" -> IF Has(s, 2) THEN Do(s, 2, It(s, 2) # <<>>, <<>>) ELSE Bad
    [] name = "OP_CHECKDATASIG" -> IF Has(s, 3) THEN Give(s, 3, <<BoolItem(It(s, 3) # <<>>)>>) ELSE Bad
    [] name = "OP_CHECKDATASIGVERIFY" -> IF Has(s, 3) THEN Do(s, 3, It(s, 3) # <<>>, <<>>) ELSE Bad
    [] name \in {"OP_CHECKLOCKTIMEVERIFY", "OP_CHECKSEQUENCEVERIFY"} ->
         IF Has(s, 1) THEN (IF IsNum(It(s, 1)) /\ Num(It(s, 1)) >= 0 THEN s ELSE Bad) ELSE Bad
    [] OTHER -> Bad     \* disabled, reserved, OP_RETURN

\* one operation of a script: conditionals are followed even where nothing is executed
Step(o, s) ==
  IF ~s.ok THEN Bad
  ELSE IF o.k = "code" /\ o.c \in {99, 100}                        \* OP_IF, OP_NOTIF
       THEN IF ~Executing(s) THEN [s EXCEPT !.cond = Append(@, FALSE)]
            ELSE IF ~Has(s, 1) THEN Bad
            ELSE [Give(s, 1, <<>>) EXCEPT !.cond = Append(@, Truthy(It(s, 1)) # (o.c = 100))]
  ELSE IF o.k = "code" /\ o.c = 103                                \* OP_ELSE
       THEN IF s.cond = <<>> THEN Bad ELSE [s EXCEPT !.cond[Len(s.cond)] = ~@]
  ELSE IF o.k = "code" /\ o.c = 104                                \* OP_ENDIF
       THEN IF s.cond = <<>> THEN Bad ELSE [s EXCEPT !.cond = Take(@, Len(@) - 1)]
  ELSE IF ~Executing(s) THEN s
  ELSE CASE o.k = "push" -> Give(s, 0, <<o.d>>)
         [] o.k = "int" -> Give(s, 0, <<EncodeInt(o.c)>>)
         [] o.k = "bool" -> Give(s, 0, <<BoolItem(o.c = 1)>>)
         [] o.k = "code" -> Exec(NameOf[o.c], s)
         [] OTHER -> Bad
Run(os, s) == FoldLeft(LAMBDA a, o : Step(o, a), s, os)
===============================================================================
