-------------------------------- MODULE Values --------------------------------
(* When two values are equal, and which comes first.  A value is equal to another *)
(* when both stand for the same thing: what is recorded about a value (names,     *)
(* derivations, source positions) does not count.  Whether two scripts that push  *)
(* the same data in different forms are equal is left open.                       *)
(* Values are given as in JsonTx: byte arrays as annotation trees, scripts as     *)
(* tagged operations, transactions with spending data.                            *)
EXTENDS Naturals, Integers, Sequences

Each(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
\* form: whether the form of a push counts
OpBare(o, form) == [k |-> o.k, c |-> o.c, d |-> IF o.k = "push" THEN o.a[1].d ELSE <<>>, m |-> form /\ o.m]
ScriptBare(s, form) == Each(s, LAMBDA t : OpBare(t.o, form))
OutpointBare(i) == <<i.prev.d, i.vout>>
InputBare(i, form) == [prev |-> OutpointBare(i), script |-> ScriptBare(i.script, form), seq |-> i.seq,
                       lock |-> Each(i.lock, LAMBDA s : ScriptBare(s, form)), value |-> i.value, p2sh |-> i.p2sh, flags |-> i.flags]
OutputBare(o, form) == [value |-> o.value, script |-> ScriptBare(o.script, form)]
TxBare(t, form) == [version |-> t.version, lt |-> t.lt, ins |-> Each(t.ins, LAMBDA i : InputBare(i, form)),
                    outs |-> Each(t.outs, LAMBDA o : OutputBare(o, form))]
Trees == {"bytes", "Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160", "tokenid"}
Bare(ty, v, form) ==
  CASE ty \in Trees -> v.d
    [] ty = "op" -> OpBare(v.o, form)
    [] ty = "tagged" -> OpBare(v.o, form)
    [] ty = "script" -> ScriptBare(v, form)
    [] ty \in {"tx", "hashedtx"} -> TxBare(v, form)
    [] ty = "input" -> InputBare(v.ins[1], form)
    [] ty = "output" -> OutputBare(v.outs[1], form)
    [] ty = "outpoint" -> OutpointBare(v.ins[1])
    [] ty = "addr" -> <<v.prefix, v.ty, v.hash.d>>
    [] OTHER -> v
\* every value of a hashed transaction is written out in its hash, so there the form counts
MustEqual(ty, a, b) == Bare(ty, a, TRUE) = Bare(ty, b, TRUE)
MayEqual(ty, a, b) == Bare(ty, a, FALSE) = Bare(ty, b, FALSE)

-------------------------------------------------------------------------------
(* Order: every ordered type is ordered as a sequence of numbers, its key. *)
Ordered == {"pubkey", "opcode", "flags", "int", "delta", "token"}
Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Biggest == 2147483647
Key(ty, v) ==
  CASE ty = "pubkey" -> v
    [] ty = "opcode" -> <<v>>
    [] ty = "flags" -> Backwards(v)
    [] ty = "int" -> IF v < 0 THEN <<0, v + Biggest>> ELSE <<1, v>>
    [] ty = "delta" -> v
    [] ty = "token" -> Backwards(v.amount) \o <<IF v.baton THEN 1 ELSE 0, v.action>>
RECURSIVE Compare(_, _)
Compare(x, y) == IF x = <<>> /\ y = <<>> THEN 0
                 ELSE IF x = <<>> THEN 0 - 1
                 ELSE IF y = <<>> THEN 1
                 ELSE IF x[1] # y[1] THEN (IF x[1] < y[1] THEN 0 - 1 ELSE 1)
                 ELSE Compare(Tail(x), Tail(y))
Order(ty, a, b) == Compare(Key(ty, a), Key(ty, b))
===============================================================================
