-------------------------------- MODULE MCSign --------------------------------
(* Every way of signing a small transaction: in any order, through any entry      *)
(* point, with repeated attempts, handing the partial transaction over (directly    *)
(* or as JSON) at any moment, in particular between two signatures.  The result is  *)
(* always the one of signing everything at once; a signed input stays as it is;     *)
(* and the histories are replayed on the code.                                      *)
EXTENDS TxBuilder, Json, IOUtils
CONSTANTS Depth, Setups, Mode, Sample   \* Mode "all": every history up to Depth steps; "states": histories of any length
It(t, n) == [t |-> t, n |-> n, op |-> Code(81)]
P2pkhSig(f) == [kind |-> "p2pkh", flags |-> <<f>>, recipe |-> <<>>, ph |-> <<>>, p2sh |-> FALSE, pk |-> <<3>> \o Rep(9, 32)]
Sg(kind, flags, recipe, ph, p2sh) == [kind |-> kind, flags |-> flags, recipe |-> recipe, ph |-> ph, p2sh |-> p2sh, pk |-> <<>>]
Cov == Sg("multi", <<65, 195>>, <<It("sig", 1), It("pre", 2), It("outs", 0)>>, <<Rep(0, 72)>>, TRUE)
One == Sg("one", <<194>>, <<It("pre", 1), It("op", 0), It("sig", 1)>>, <<Rep(0, 72)>>, TRUE)
Bare == Sg("one", <<66>>, <<>>, <<>>, FALSE)                \* an empty unlocking script
Locks == << <<Code(OP_CODESEPARATOR), Code(81)>>, <<Code(81)>>, <<Code(97), Code(OP_CODESEPARATOR), Code(82)>> >>
SetupOf == << <<P2pkhSig(65), Cov>>, <<One, Bare>>, <<Cov, P2pkhSig(193)>>, <<P2pkhSig(65), One, Cov>>, <<Bare, Bare>>, <<Cov>> >>
Sigs(sg) == CASE sg.kind = "p2pkh" -> <<Rep(5, 71)>> [] sg.recipe = <<>> -> <<>> [] OTHER -> <<Rep(6, 70)>>
VARIABLES set, b, u, hist, phase, own, n
vars == <<set, b, u, hist, phase, own, n>>
S == SetupOf[set]
N == Len(S)
Prev(k) == <<Rep(k, 32), LE(k, 4)>>
OutList == << <<LE(600, 8), <<Code(106)>>>>, <<LE(1, 8), <<Code(81)>>>> >>
Fresh(st) == FoldLeft(LAMBDA x, k : AddInput(x, Prev(k), LE(k, 4), LE(5000, 8), Locks[k], st[k]),
                 FoldLeft(LAMBDA x, o : AddOutput(x, o[1], o[2]), NewBuilder(LE(2, 4), LE(9, 4), LE(1000, 8)), OutList), [k \in 1..Len(st) |-> k])
Start(st) == <<[op |-> "new", version |-> LE(2, 4), lt |-> LE(9, 4), fee |-> LE(1000, 8)]>>
  \o [k \in 1..2 |-> [op |-> "output", value |-> OutList[k][1], script |-> OutList[k][2]]]
  \o [k \in 1..Len(st) |-> [op |-> "input", prev |-> Prev(k), seq |-> LE(k, 4), value |-> LE(5000, 8), lock |-> Locks[k], sig |-> st[k]]]
  \o <<[op |-> "build"]>>
Build(x) == MakeUnsigned(x, OutList)
Init == /\ set \in Setups /\ b = Fresh(S) /\ u = Build(b) /\ hist = <<>> /\ phase = "go" /\ own = TRUE /\ n = 0
Room == phase = "go" /\ n < Depth
Log(h) == IF Mode = "all" THEN hist' = hist \o h /\ n' = n + 1 ELSE UNCHANGED <<hist, n>>
SignEv(k, via) == [op |-> "sign", idx |-> k - 1, via |-> via, sig |-> S[k], sigs |-> Sigs(S[k])]
SignOne == Room /\ \E k \in 1..N : \E via \in {"input", "dyn", "signatory"} :
  /\ own \/ via = "signatory"
  /\ u' = IF u.ins[k] # <<>> THEN u ELSE Sign(b, u, k, S[k], Sigs(S[k]))
  /\ Log(<<SignEv(k, via)>>) /\ UNCHANGED <<set, b, phase, own>>
HandOver == Room /\ \E json \in BOOLEAN : \E how \in {"build", "buildfixed"} :
  /\ b' = FromTx(TxFrom(b, u)) /\ u' = Build(b') /\ own' = FALSE
  /\ Log(<<[op |-> "partial"]>> \o (IF json THEN <<[op |-> "json"]>> ELSE <<>>) \o <<[op |-> "fromtx"], [op |-> how]>>)
  /\ UNCHANGED <<set, phase>>
Look == Room /\ Mode = "all" /\ \E k \in 1..N : Log(<<[op |-> "preimages", idx |-> k - 1]>>) /\ UNCHANGED <<set, b, u, phase, own>>
Finish == phase = "go" /\ phase' = "done" /\ Log(<<[op |-> "complete"]>>) /\ UNCHANGED <<set, b, u, own>>
Next == SignOne \/ HandOver \/ Look \/ Finish
Spec == Init /\ [][Next]_vars

OneShot == LET x == Fresh(S) IN FoldLeft(LAMBDA acc, k : Sign(x, acc, k, S[k], Sigs(S[k])), Build(x), [k \in 1..N |-> k])
SameAsOneShot == AllSigned(u) => LET x == Fresh(S) IN TxFrom(b, u) = TxFrom(x, OneShot)
\* a signed input is already the final one, whatever happens to the others
Settled == LET t == TxFrom(Fresh(S), OneShot) IN \A k \in 1..N : u.ins[k] # <<>> => u.ins[k][1] = t.ins[k]
SamePreimages == u.pre = Build(Fresh(S)).pre
Bounded == SizeBound(b, u)
Unchanging == [][SignOne => \A k \in 1..N : u.ins[k] # <<>> => u'.ins[k] = u.ins[k]]_vars
\* nothing but hand-over of an empty script undoes a signature
NoLoss == [][\A k \in 1..N : (u.ins[k] # <<>> /\ u.ins[k][1].script # <<>>) => u'.ins[k] = u.ins[k]]_vars
Hash == FoldLeft(LAMBDA a, e : (a * 31 + Len(e.op) * 7 + (IF e.op \in {"sign", "preimages"} THEN e.idx + 1 ELSE 0)
                                  + (IF e.op = "sign" THEN Len(e.via) ELSE 0)) % 100003, set, hist)
Emit == (IOEnv.EMIT = "yes" /\ phase = "done" /\ Hash % Sample = 0) => PrintT(ToJson([dom |-> "builder", ev |-> Start(S) \o hist]))
===============================================================================
