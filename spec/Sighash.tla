-------------------------------- MODULE Sighash --------------------------------
(* The replay-protected signature preimage.  A transaction context is             *)
(*   [version, ins, outs, lt], an input [prev, seq, value, lock], an output        *)
(*   <<value, script>>; numbers are little-endian byte strings.                    *)
EXTENDS Wire, Hashes

FlagBase(f) == f % 32
AnyoneCanPay(f) == (f \div 128) % 2 = 1
SINGLE == 3  NONE == 2
Hash0 == Zeros(32)

\* what follows the first code separator
RECURSIVE AfterSeparator(_, _)
AfterSeparator(ops, j) == IF j > Len(ops) THEN ops
                          ELSE IF ops[j].k = "code" /\ ops[j].c = OP_CODESEPARATOR THEN Drop(ops, j)
                          ELSE AfterSeparator(ops, j + 1)
ScriptCode(ops) == AfterSeparator(ops, 1)

AllPrevouts(t) == CatAll([j \in 1..Len(t.ins) |-> Enc(OutpointT, t.ins[j].prev)])
AllSequences(t) == CatAll([j \in 1..Len(t.ins) |-> t.ins[j].seq])
AllOutputs(t) == CatAll([j \in 1..Len(t.outs) |-> Enc(OutputT, t.outs[j])])
\* the three hashes over everything, computed once per transaction
Commitments(t) == [hp |-> Sha256d(AllPrevouts(t)), hs |-> Sha256d(AllSequences(t)), ho |-> Sha256d(AllOutputs(t))]

\* with what the script interpreter takes for the script code
PreimageOver(t, c, j, code, f) ==
  <<t.version,
    IF AnyoneCanPay(f) THEN Hash0 ELSE c.hp,
    IF AnyoneCanPay(f) \/ FlagBase(f) \in {SINGLE, NONE} THEN Hash0 ELSE c.hs,
    t.ins[j].prev,
    code,
    t.ins[j].value,
    t.ins[j].seq,
    CASE FlagBase(f) = NONE -> Hash0
      [] FlagBase(f) = SINGLE -> IF j <= Len(t.outs) THEN Sha256d(Enc(OutputT, t.outs[j])) ELSE Hash0
      [] OTHER -> c.ho,
    t.lt,
    LE(f, 4)>>
PreimageWith(t, c, j, f) == PreimageOver(t, c, j, ScriptCode(t.ins[j].lock), f)
\* per input, per requested flag, in order
Preimages(t, flags) == LET c == Commitments(t)
                       IN [j \in 1..Len(t.ins) |-> [k \in 1..Len(flags[j]) |-> PreimageWith(t, c, j, flags[j][k])]]
PreimageBytes(p) == Enc(PreimageT, p)
EmptyPreimage(lock) == <<Zeros(4), Hash0, Hash0, <<Hash0, Zeros(4)>>, ScriptCode(lock), Zeros(8), Zeros(4), Hash0, Zeros(4), LE(1, 4)>>
===============================================================================
