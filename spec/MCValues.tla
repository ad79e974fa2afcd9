------------------------------- MODULE MCValues -------------------------------
(* What the specification of equality and order means, checked for itself: both   *)
(* readings of equality are equivalences that only annotations (and the form of a *)
(* push) are left out of, operations that must be equal are written alike and     *)
(* operations written differently are not, and every order is total and agrees    *)
(* with equality.                                                                 *)
EXTENDS Values, ScriptCodec, TLC
VARIABLES ty, x, y

Tree(d, n) == [d |-> d, n |-> n, f |-> "Plain", p |-> <<>>]
Trees2 == {Tree(d, n) : d \in {<<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 1>>}, n \in {<<>>, <<<<97>>>>}}
Tag(o, l) == [o |-> o, file |-> <<>>, line |-> l, col |-> l, code |-> <<>>, names |-> <<>>, alt |-> <<>>]
Op4(k, c, m, a) == [k |-> k, c |-> c, m |-> m, a |-> a]
Vals == {Op4("code", c, FALSE, <<>>) : c \in {0, 81, 118}} \cup {Op4("inv", 190, FALSE, <<>>)}
       \cup {Op4("bool", c, FALSE, <<>>) : c \in 0..1} \cup {Op4("int", c, FALSE, <<>>) : c \in {0, 1, 118, 0 - 1}}
       \cup {Op4("push", 0, m, <<t>>) : m \in BOOLEAN, t \in Trees2}
Tags == {Tag(o, l) : o \in Vals, l \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>}}
FewTags == {t \in Tags : t.o.k # "push" \/ t.o.a[1].d \in {<<>>, <<1>>}}
Scripts == UNION {[1..n -> {t \in FewTags : t.o.k = "int" \/ (t.o.k = "push" /\ t.line = <<0, 0, 0, 0>>)}] : n \in 0..2}
Amounts == {<<a, 0, 0, 0, 0, 0, 0, b>> : a \in {0, 1, 255}, b \in {0, 1, 128}}
Domain(t) == CASE t = "bytes" -> Trees2
               [] t = "op" -> Tags
               [] t = "script" -> Scripts
               [] t = "int" -> {0 - Biggest, 0 - 256, 0 - 2, 0 - 1, 0, 1, 2, 255, 256, Biggest}
               [] t = "delta" -> {<<k, n>> : k \in 0..1, n \in {0, 1, 255, 256, 65535}}
               [] t = "token" -> {[amount |-> a, baton |-> b, action |-> c] : a \in Amounts, b \in BOOLEAN, c \in 0..2}
               [] t = "flags" -> {<<f, 0, 0, 0>> : f \in {1, 2, 3, 65, 66, 67, 193, 194, 195}}
               [] t = "opcode" -> {0, 76, 81, 118, 188}
               [] t = "pubkey" -> {<<p, a, b>> : p \in 2..3, a \in {0, 1, 255}, b \in {0, 1, 255}}
Kinds == {"bytes", "op", "script"} \cup Ordered
Init == ty \in Kinds /\ x \in Domain(ty) /\ y = <<>>
Next == y = <<>> /\ \E z \in Domain(ty) : y' = <<z>> /\ UNCHANGED <<ty, x>>
Spec == Init /\ [][Next]_<<ty, x, y>>

Done == y # <<>>
Third == IF ty = "script" THEN {s \in Scripts : Len(s) < 2} ELSE Domain(ty)
Equivalence ==
  /\ MustEqual(ty, x, x) /\ MayEqual(ty, x, x)
  /\ Done => LET z == y[1] IN
       /\ MustEqual(ty, x, z) => MayEqual(ty, x, z)
       /\ MustEqual(ty, x, z) = MustEqual(ty, z, x) /\ MayEqual(ty, x, z) = MayEqual(ty, z, x)
       /\ \A w \in Third : /\ MustEqual(ty, x, z) /\ MustEqual(ty, z, w) => MustEqual(ty, x, w)
                           /\ MayEqual(ty, x, z) /\ MayEqual(ty, z, w) => MayEqual(ty, x, w)
\* the operations as the script codec knows them
PlainOp(t) == [k |-> t.o.k, c |-> t.o.c, d |-> IF t.o.k = "push" THEN t.o.a[1].d ELSE <<>>, m |-> t.o.m]
Written(v) == EncodeOps(IF ty = "op" THEN <<PlainOp(v)>> ELSE Each(v, LAMBDA t : PlainOp(t)))
WrittenAlike == Done /\ ty \in {"op", "script"} /\ MustEqual(ty, x, y[1]) => Written(x) = Written(y[1])
\* nothing but how a push is written tells values apart that may be equal
OnlyForm == Done /\ ty = "op" => LET z == y[1] IN
  MayEqual(ty, x, z) /\ Written(x) # Written(z) => x.o.k = "push" /\ z.o.k = "push" /\ x.o.m # z.o.m
TotalOrder == ty \in Ordered =>
  /\ Order(ty, x, x) = 0
  /\ Done => LET z == y[1] IN
       /\ Order(ty, x, z) = 0 - Order(ty, z, x) /\ (Order(ty, x, z) = 0) = MustEqual(ty, x, z)
       /\ \A w \in Domain(ty) : Order(ty, x, z) <= 0 /\ Order(ty, z, w) <= 0 => Order(ty, x, w) <= 0
\* numbers come in their own order
Numeric == Done /\ ty = "int" => (Order(ty, x, y[1]) < 0) = (x < y[1])
===============================================================================
