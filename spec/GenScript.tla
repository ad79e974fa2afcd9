------------------------------- MODULE GenScript -------------------------------
(* Script byte strings enumerated exhaustively: all of length at most 2, and    *)
(* all up to length 4 over the bytes at which the grammar branches.             *)
EXTENDS ScriptCodec, Json, IOUtils
Edge == {0, 1, 2, 5, 76, 77, 79, 81, 97, 129, 172, 200}
Strings == UNION {[1..n -> Byte] : n \in 0..(IF IOEnv.VERIF_TIER = "thorough" THEN 2 ELSE 1)}
           \cup [1..2 -> {x \in Byte : x % 3 = 0 \/ x \in Edge \/ x \in 74..82}]
           \cup UNION {[1..n -> Edge] : n \in 3..(IF IOEnv.VERIF_TIER = "thorough" THEN 5 ELSE 3)}
Case(b) == [dom |-> "script", op |-> "parse", b |-> b]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(b) : b \in Strings}))
===============================================================================
