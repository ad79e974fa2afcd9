------------------------------- MODULE MCSighash -------------------------------
(* What a signature commits to, as non-interference: changing one thing of a       *)
(* transaction changes the preimage of an input exactly when the sighash flag says  *)
(* that thing is signed.                                                            *)
EXTENDS Sighash, Json, IOUtils
CONSTANTS MaxIns, MaxOuts, Flags
AllFlags == 0..255
VARIABLES nin, nout, at, flag
vars == <<nin, nout, at, flag>>
Sep == Code(OP_CODESEPARATOR)
LockOf(k) == IF k = 2 THEN <<Code(97), Sep, Code(81), Sep, Code(82)>> ELSE <<Code(80 + k)>>
Base == [version |-> LE(1, 4), lt |-> LE(7, 4),
         ins |-> [k \in 1..nin |-> [prev |-> <<Rep(k, 32), LE(k, 4)>>, seq |-> LE(100 + k, 4), value |-> LE(1000 + k, 8), lock |-> LockOf(k)]],
         outs |-> [k \in 1..nout |-> <<LE(500 + k, 8), <<Code(80 + k)>>>>]]
\* one thing changed: [what, k]
Things == {[what |-> w, k |-> 0] : w \in {"version", "lt", "addin", "addout"}}
     \cup {[what |-> w, k |-> j] : w \in {"prevhash", "vout", "seq", "value", "lockbefore", "lockafter", "dropin"}, j \in 1..nin}
     \cup {[what |-> w, k |-> j] : w \in {"outvalue", "outscript", "dropout"}, j \in 1..nout}
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Changed(c) ==
  LET t == Base j == c.k IN
  CASE c.what = "version" -> [t EXCEPT !.version = LE(2, 4)]
    [] c.what = "lt" -> [t EXCEPT !.lt = LE(8, 4)]
    [] c.what = "addin" -> [t EXCEPT !.ins = Append(@, [prev |-> <<Rep(99, 32), LE(0, 4)>>, seq |-> LE(1, 4), value |-> LE(1, 8), lock |-> <<>>])]
    [] c.what = "addout" -> [t EXCEPT !.outs = Append(@, <<LE(9, 8), <<>>>>)]
    [] c.what = "prevhash" -> [t EXCEPT !.ins[j].prev[1] = Rep(50, 32)]
    [] c.what = "vout" -> [t EXCEPT !.ins[j].prev[2] = LE(77, 4)]
    [] c.what = "seq" -> [t EXCEPT !.ins[j].seq = LE(77, 4)]
    [] c.what = "value" -> [t EXCEPT !.ins[j].value = LE(77, 8)]
    [] c.what = "lockbefore" -> [t EXCEPT !.ins[j].lock = <<Code(99), Sep>> \o (IF j = 2 THEN AfterSeparator(@, 1) ELSE @)]
    [] c.what = "lockafter" -> [t EXCEPT !.ins[j].lock = Append(@, Code(104))]
    [] c.what = "dropin" -> [t EXCEPT !.ins = Without(@, j)]
    [] c.what = "outvalue" -> [t EXCEPT !.outs[j][1] = LE(78, 8)]
    [] c.what = "outscript" -> [t EXCEPT !.outs[j][2] = <<Code(79)>>]
    [] c.what = "dropout" -> [t EXCEPT !.outs = Without(@, j)]
Low5(f) == f - 32 * (f \div 32)
OnlyMine(f) == f >= 128
OnlyOne(f) == Low5(f) = 3
All(f) == Low5(f) \notin {2, 3}
\* does the flag sign it?  For input `at` of Base.
Commits(f, c) ==
  CASE c.what \in {"version", "lt"} -> TRUE
    [] c.what \in {"prevhash", "vout"} -> c.k = at \/ ~OnlyMine(f)
    [] c.what = "seq" -> c.k = at \/ (~OnlyMine(f) /\ All(f))
    [] c.what = "value" -> c.k = at
    [] c.what = "lockbefore" -> FALSE
    [] c.what = "lockafter" -> c.k = at
    [] c.what = "addin" -> ~OnlyMine(f)
    [] c.what \in {"outvalue", "outscript"} -> All(f) \/ (OnlyOne(f) /\ c.k = at)
    [] c.what = "addout" -> All(f) \/ (OnlyOne(f) /\ at = nout + 1)
    [] c.what = "dropout" -> All(f) \/ (OnlyOne(f) /\ c.k <= at /\ at <= nout)
    [] c.what = "dropin" -> ~OnlyMine(f) /\ c.k # at
Init == nin \in 1..MaxIns /\ nout \in 0..MaxOuts /\ at \in 1..MaxIns /\ at <= nin /\ flag \in Flags
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
PreOf(t, j, f) == PreimageBytes(PreimageWith(t, Commitments(t), j, f))
\* dropping an earlier input moves this one: only comparable without SINGLE
Comparable(c) == CASE c.what = "dropin" -> c.k # at /\ (c.k > at \/ ~OnlyOne(flag))
                   [] OTHER -> TRUE
Where(c) == IF c.what = "dropin" /\ c.k < at THEN at - 1 ELSE at
NonInterference ==
  LET p == PreOf(Base, at, flag) IN
  \A c \in Things : Comparable(c) => ((PreOf(Changed(c), Where(c), flag) # p) <=> Commits(flag, c))
FlagSigned == LET p == PreOf(Base, at, flag) IN SubSeq(p, Len(p) - 3, Len(p)) = LE(flag, 4)
Size == Len(PreOf(Base, at, flag)) = 4 + 32 + 32 + 36 + 1 + Len(EncodeOps(ScriptCode(LockOf(at)))) + 8 + 4 + 32 + 4 + 4
\* the same transactions, changed and unchanged, go through the builder of the code
SigOf == [kind |-> "multi", flags |-> <<flag>>, recipe |-> <<>>, ph |-> <<>>, p2sh |-> FALSE, pk |-> <<>>]
Session(t) ==
  [dom |-> "builder", ev |-> <<[op |-> "new", version |-> t.version, lt |-> t.lt, fee |-> LE(1000, 8)]>>
     \o [k \in 1..Len(t.outs) |-> [op |-> "output", value |-> t.outs[k][1], script |-> t.outs[k][2]]]
     \o [k \in 1..Len(t.ins) |-> [op |-> "input", prev |-> t.ins[k].prev, seq |-> t.ins[k].seq, value |-> t.ins[k].value, lock |-> t.ins[k].lock, sig |-> SigOf]]
     \o <<[op |-> "buildfixed"], [op |-> "partial"], [op |-> "txpre", flags |-> <<flag>>]>>]
Hash(c) == (flag * 131 + nin * 31 + nout * 17 + at * 7 + c.k + Len(c.what)) % 11
Emit == IOEnv.EMIT = "yes" =>
          /\ PrintT(ToJson(Session(Base)))
          /\ \A c \in Things : Hash(c) = 0 => PrintT(ToJson(Session(Changed(c))))
===============================================================================
