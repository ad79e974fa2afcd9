-------------------------------- MODULE MCTypes --------------------------------
(* What the typed-value specification means, checked for itself: a typed value    *)
(* pushed, written and parsed leaves the element of the value; a relative lock    *)
(* time reads back as itself; the text of an operation tells which one it is; the *)
(* script codes of successive separators nest.                                    *)
EXTENDS Types
VARIABLES topic, x
Bytes1 == {<<>>} \cup {<<b>> : b \in 0..255} \cup {<<a, b>> : a \in {0, 1, 128, 255}, b \in {0, 1, 127, 128, 129}}
Ints == (-300..300) \cup {s * v : s \in {1, -1}, v \in {32767, 32768, 65535, 65536, 8388607, 8388608, 16777216, MAXINT}}
Value == CASE topic = "int" -> IntV(x) [] topic = "bool" -> BoolV(x) [] topic = "bytes" -> BytesV(Leaf(x))
Ops == {Code(c) : c \in AssignedOpcodes \ {76, 77, 78}} \cup {Inv(c) : c \in 190..255} \cup {PBool(b) : b \in BOOLEAN}
       \cup {PInt(i) : i \in Ints} \cup {Push(d, TRUE) : d \in Bytes1}
Alphabet == {Code(OP_CODESEPARATOR), Code(97), Push(<<171>>, TRUE), PInt(171)}
Scripts == UNION {[1..n -> Alphabet] : n \in 0..5}
Init == \/ topic = "int" /\ x \in Ints
        \/ topic = "bool" /\ x \in BOOLEAN
        \/ topic = "bytes" /\ x \in Bytes1
        \/ topic = "lock" /\ x \in {"blocks", "seconds"} \X (0..255)
        \/ topic = "text" /\ x \in Ops
        \/ topic = "code" /\ x \in Scripts
Next == FALSE /\ UNCHANGED <<topic, x>>
Spec == Init /\ [][Next]_<<topic, x>>

\* the element a parsed operation leaves, push opcodes included
Leaves(o) == CASE o.k = "push" -> o.d
               [] o.k = "code" -> IF o.c = OP_0 THEN <<>> ELSE IF o.c = OP_1NEGATE THEN <<129>> ELSE <<o.c - 80>>
ElementOf(v) == CASE v.t = "I" -> EncodeInt(v.v) [] v.t = "B" -> (IF v.v THEN <<1>> ELSE <<>>) [] v.t = "A" -> v.v.d
PushLeavesValue == topic \in {"int", "bool", "bytes"} =>
  LET v == Value r == ParseOps(EncodeOps(<<PushOf(v)>>)) IN
  /\ r.ok /\ Len(r.ops) = 1 /\ Leaves(r.ops[1]) = ElementOf(v) /\ Element(PushOf(v)) = ElementOf(v)
  \* and no shorter push does
  /\ EncodeOps(<<PushOf(v)>>) = EncodePush(ElementOf(v), TRUE)
LockReadsBack == topic = "lock" => \A lo \in 0..255 : LET n == 256 * x[2] + lo IN RelativeMeaning(Relative(x[1], n)) = <<x[1], n>>
TextTells == topic = "text" => \A o \in Ops : TextOf(o) = TextOf(x) => SameOp(o, x)
Seps(ops) == Cardinality({i \in 1..Len(ops) : ops[i] = Code(OP_CODESEPARATOR)})
CodesNest == topic = "code" =>
  /\ \A n \in 0..5 : HasSeparator(x, n) = (n < Seps(x))
  /\ (Seps(x) > 0 => ScriptCode(x) = ScriptCodeOf(x, 0)) /\ (Seps(x) = 0 => ScriptCode(x) = x)
  /\ \A n \in 0..5 : n < Seps(x) => /\ Seps(ScriptCodeOf(x, n)) = Seps(x) - n - 1
                                    /\ (n + 1 < Seps(x) => ScriptCodeOf(x, n + 1) = ScriptCodeOf(ScriptCodeOf(x, n), 0))
===============================================================================
