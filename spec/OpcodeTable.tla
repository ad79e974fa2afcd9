------------------------------ MODULE OpcodeTable ------------------------------
(* The consensus opcode table (BCH, 2020 upgrade): byte, standard name, the       *)
(* declared types of stack arguments and results.  What each opcode does to the   *)
(* stacks is StackMachine.                                                        *)
EXTENDS ScriptCodec

RECURSIVE NamesFrom(_, _)
NamesFrom(b, ns) == IF ns = <<>> THEN << >> ELSE (b :> Head(ns)) @@ NamesFrom(b + 1, Tail(ns))
TailNames == <<
  "OP_NOP", "OP_VER", "OP_IF", "OP_NOTIF", "OP_VERIF", "OP_VERNOTIF", "OP_ELSE", "OP_ENDIF",      \* 0x61
  "OP_VERIFY", "OP_RETURN", "OP_TOALTSTACK", "OP_FROMALTSTACK", "OP_2DROP", "OP_2DUP", "OP_3DUP", \* 0x69
  "OP_2OVER", "OP_2ROT", "OP_2SWAP", "OP_IFDUP", "OP_DEPTH", "OP_DROP", "OP_DUP", "OP_NIP",       \* 0x70
  "OP_OVER", "OP_PICK", "OP_ROLL", "OP_ROT", "OP_SWAP", "OP_TUCK", "OP_CAT", "OP_SPLIT",          \* 0x78
  "OP_NUM2BIN", "OP_BIN2NUM", "OP_SIZE", "OP_INVERT", "OP_AND", "OP_OR", "OP_XOR", "OP_EQUAL",    \* 0x80
  "OP_EQUALVERIFY", "OP_RESERVED1", "OP_RESERVED2", "OP_1ADD", "OP_1SUB", "OP_2MUL", "OP_2DIV",   \* 0x88
  "OP_NEGATE", "OP_ABS", "OP_NOT", "OP_0NOTEQUAL", "OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV",        \* 0x8f
  "OP_MOD", "OP_LSHIFT", "OP_RSHIFT", "OP_BOOLAND", "OP_BOOLOR", "OP_NUMEQUAL",                   \* 0x97
  "OP_NUMEQUALVERIFY", "OP_NUMNOTEQUAL", "OP_LESSTHAN", "OP_GREATERTHAN", "OP_LESSTHANOREQUAL",   \* 0x9d
  "OP_GREATERTHANOREQUAL", "OP_MIN", "OP_MAX", "OP_WITHIN", "OP_RIPEMD160", "OP_SHA1",            \* 0xa2
  "OP_SHA256", "OP_HASH160", "OP_HASH256", "OP_CODESEPARATOR", "OP_CHECKSIG",                     \* 0xa8
  "OP_CHECKSIGVERIFY", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY", "OP_NOP1",                   \* 0xad
  "OP_CHECKLOCKTIMEVERIFY", "OP_CHECKSEQUENCEVERIFY", "OP_NOP4", "OP_NOP5", "OP_NOP6", "OP_NOP7", \* 0xb1
  "OP_NOP8", "OP_NOP9", "OP_NOP10", "OP_CHECKDATASIG", "OP_CHECKDATASIGVERIFY",                   \* 0xb7
  "OP_REVERSEBYTES" >>                                                                            \* 0xbc
NameOf == TLCEval((0 :> "OP_0") @@ (79 :> "OP_1NEGATE") @@ (80 :> "OP_RESERVED")
          @@ (76 :> "OP_PUSHDATA1") @@ (77 :> "OP_PUSHDATA2") @@ (78 :> "OP_PUSHDATA4")
          @@ [b \in 81..96 |-> "OP_" \o ToString(b - 80)] @@ NamesFrom(97, TailNames))
ASSUME DOMAIN NameOf = AssignedOpcodes
ASSUME NameOf[107] = "OP_TOALTSTACK" /\ NameOf[118] = "OP_DUP" /\ NameOf[135] = "OP_EQUAL" /\ NameOf[169] = "OP_HASH160"
       /\ NameOf[172] = "OP_CHECKSIG" /\ NameOf[186] = "OP_CHECKDATASIG" /\ NameOf[188] = "OP_REVERSEBYTES"
ASSUME \A a, b \in AssignedOpcodes : NameOf[a] = NameOf[b] => a = b
ByteOf == TLCEval([n \in {NameOf[b] : b \in AssignedOpcodes} |-> CHOOSE b \in AssignedOpcodes : NameOf[b] = n])

\* opcodes that fail a script (reserved ones only when executed)
DisabledNames == {"OP_RESERVED", "OP_RESERVED1", "OP_RESERVED2", "OP_MUL", "OP_2MUL", "OP_2DIV", "OP_INVERT", "OP_LSHIFT",
                  "OP_RSHIFT", "OP_VER", "OP_VERIF", "OP_VERNOTIF"}
\* number of arguments or results depends on the values on the stack
DynamicNames == {"OP_IFDUP", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY"}
\* the argument stays on the stack
RetainsNames == {"OP_SIZE", "OP_CHECKLOCKTIMEVERIFY", "OP_CHECKSEQUENCEVERIFY"}

-------------------------------------------------------------------------------
(* Declared types: G anything, I integer, B boolean, A bytes, A20/A32 that many.  *)
Sig(i, o) == [ins |-> i, outs |-> o]
tG == "G"  tI == "I"  tB == "B"  tA == "A"
ConstNames == {NameOf[b] : b \in {0, 79} \cup (81..96)}
NoEffectNames == {"OP_NOP", "OP_NOP1", "OP_NOP4", "OP_NOP5", "OP_NOP6", "OP_NOP7", "OP_NOP8", "OP_NOP9", "OP_NOP10",
                  "OP_CODESEPARATOR", "OP_ELSE", "OP_ENDIF"}
StackSigs ==
  [OP_2DROP |-> Sig(<<tG, tG>>, <<>>), OP_2DUP |-> Sig(<<tG, tG>>, <<tG, tG, tG, tG>>),
   OP_3DUP |-> Sig(<<tG, tG, tG>>, <<tG, tG, tG, tG, tG, tG>>), OP_2OVER |-> Sig(<<tG, tG, tG, tG>>, <<tG, tG, tG, tG, tG, tG>>),
   OP_2ROT |-> Sig(<<tG, tG, tG, tG, tG, tG>>, <<tG, tG, tG, tG, tG, tG>>), OP_2SWAP |-> Sig(<<tG, tG, tG, tG>>, <<tG, tG, tG, tG>>),
   OP_DROP |-> Sig(<<tG>>, <<>>), OP_DUP |-> Sig(<<tG>>, <<tG, tG>>), OP_NIP |-> Sig(<<tG, tG>>, <<tG>>),
   OP_OVER |-> Sig(<<tG, tG>>, <<tG, tG, tG>>), OP_ROT |-> Sig(<<tG, tG, tG>>, <<tG, tG, tG>>), OP_SWAP |-> Sig(<<tG, tG>>, <<tG, tG>>),
   OP_TUCK |-> Sig(<<tG, tG>>, <<tG, tG, tG>>), OP_TOALTSTACK |-> Sig(<<tG>>, <<>>), OP_FROMALTSTACK |-> Sig(<<>>, <<tG>>),
   OP_PICK |-> Sig(<<tI>>, <<tG>>), OP_ROLL |-> Sig(<<tI>>, <<tG>>), OP_DEPTH |-> Sig(<<>>, <<tI>>)]
BytesSigs ==
  [OP_CAT |-> Sig(<<tA, tA>>, <<tA>>), OP_SPLIT |-> Sig(<<tA, tI>>, <<tA, tA>>), OP_NUM2BIN |-> Sig(<<tI, tI>>, <<tA>>),
   OP_BIN2NUM |-> Sig(<<tA>>, <<tI>>), OP_SIZE |-> Sig(<<tA>>, <<tA, tI>>), OP_AND |-> Sig(<<tA, tA>>, <<tA>>),
   OP_OR |-> Sig(<<tA, tA>>, <<tA>>), OP_XOR |-> Sig(<<tA, tA>>, <<tA>>), OP_REVERSEBYTES |-> Sig(<<tA>>, <<tA>>),
   OP_EQUAL |-> Sig(<<tG, tG>>, <<tB>>), OP_EQUALVERIFY |-> Sig(<<tG, tG>>, <<>>),
   OP_RIPEMD160 |-> Sig(<<tA>>, <<"A20">>), OP_SHA1 |-> Sig(<<tA>>, <<"A20">>), OP_SHA256 |-> Sig(<<tA>>, <<"A32">>),
   OP_HASH160 |-> Sig(<<tA>>, <<"A20">>), OP_HASH256 |-> Sig(<<tA>>, <<"A32">>),
   OP_CHECKSIG |-> Sig(<<tA, tA>>, <<tB>>), OP_CHECKSIGVERIFY |-> Sig(<<tA, tA>>, <<>>),
   OP_CHECKDATASIG |-> Sig(<<tA, tA, tA>>, <<tB>>), OP_CHECKDATASIGVERIFY |-> Sig(<<tA, tA, tA>>, <<>>)]
NumberSigs ==
  [OP_1ADD |-> Sig(<<tI>>, <<tI>>), OP_1SUB |-> Sig(<<tI>>, <<tI>>), OP_NEGATE |-> Sig(<<tI>>, <<tI>>), OP_ABS |-> Sig(<<tI>>, <<tI>>),
   OP_NOT |-> Sig(<<tB>>, <<tB>>), OP_0NOTEQUAL |-> Sig(<<tI>>, <<tB>>), OP_ADD |-> Sig(<<tI, tI>>, <<tI>>),
   OP_SUB |-> Sig(<<tI, tI>>, <<tI>>), OP_DIV |-> Sig(<<tI, tI>>, <<tI>>), OP_MOD |-> Sig(<<tI, tI>>, <<tI>>),
   OP_BOOLAND |-> Sig(<<tB, tB>>, <<tB>>), OP_BOOLOR |-> Sig(<<tB, tB>>, <<tB>>), OP_NUMEQUAL |-> Sig(<<tI, tI>>, <<tB>>),
   OP_NUMEQUALVERIFY |-> Sig(<<tI, tI>>, <<>>), OP_NUMNOTEQUAL |-> Sig(<<tI, tI>>, <<tB>>), OP_LESSTHAN |-> Sig(<<tI, tI>>, <<tB>>),
   OP_GREATERTHAN |-> Sig(<<tI, tI>>, <<tB>>), OP_LESSTHANOREQUAL |-> Sig(<<tI, tI>>, <<tB>>),
   OP_GREATERTHANOREQUAL |-> Sig(<<tI, tI>>, <<tB>>), OP_MIN |-> Sig(<<tI, tI>>, <<tI>>), OP_MAX |-> Sig(<<tI, tI>>, <<tI>>),
   OP_WITHIN |-> Sig(<<tI, tI, tI>>, <<tB>>), OP_CHECKLOCKTIMEVERIFY |-> Sig(<<tI>>, <<tI>>),
   OP_CHECKSEQUENCEVERIFY |-> Sig(<<tI>>, <<tI>>)]
Signatures == TLCEval(StackSigs @@ BytesSigs @@ NumberSigs @@ [n \in ConstNames |-> Sig(<<>>, <<tI>>)]
              @@ [n \in NoEffectNames |-> Sig(<<>>, <<>>)]
              @@ [n \in {"OP_IF", "OP_NOTIF"} |-> Sig(<<tG>>, <<>>)] @@ ("OP_VERIFY" :> Sig(<<tB>>, <<>>)))
\* push opcodes take their data from the script and OP_RETURN ends it: no signature
ASSUME DOMAIN Signatures = {NameOf[b] : b \in AssignedOpcodes} \ (DisabledNames \cup DynamicNames
                           \cup {"OP_PUSHDATA1", "OP_PUSHDATA2", "OP_PUSHDATA4", "OP_RETURN"})
===============================================================================
