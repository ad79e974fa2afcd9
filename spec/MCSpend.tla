-------------------------------- MODULE MCSpend --------------------------------
(* The design of Spend.tla, with a signature scheme in which a signature is a      *)
(* fingerprint of key and message.  An honestly signed input of every kind of      *)
(* contract is spendable; after one change to the transaction it is spendable      *)
(* exactly when its signatures leave that thing open; and what a contract asks for *)
(* cannot be left out or exchanged.                                                *)
EXTENDS Spend, TLC
CONSTANTS Ins, Outs, Kinds
VARIABLES kind, flag, nin, nout, at, pre
vars == <<kind, flag, nin, nout, at, pre>>

Fingerprint(pk, z) == <<48>> \o Sha256(pk \o z)
TheSig(sig, pk, z) == sig = Fingerprint(pk, z)
Pk(i) == <<2>> \o Rep(i, 32)
Until == 500000005
Age == 4194304 + 9
Terms == [kind |-> kind, pks |-> [i \in 1..(CASE kind \in {"claim", "refund"} -> 2 [] kind \in {"many", "bare"} -> 3 [] OTHER -> 1) |-> Pk(i)],
          until |-> Until, age |-> Age, flag |-> flag, m |-> 2, secret |-> <<7, 7, 7>>, x |-> -3, y |-> 300, lo |-> -3, hi |-> 0]
\* who signs
Signers == CASE kind = "refund" -> <<2>> [] kind \in {"many", "bare"} -> <<1, 3>> [] OTHER -> <<1>>
Base == [version |-> LE(2, 4), lt |-> LE(500000007, 4),
         ins |-> [k \in 1..nin |-> [prev |-> <<Rep(k, 32), LE(k, 4)>>, seq |-> <<10 + k, 0, 64, 0>>, value |-> LE(1000 + k, 8)]],
         outs |-> [k \in 1..nout |-> <<LE(500 + k, 8), <<Code(80 + k)>>>>]]
\* the part of the script that signatures cover
Covered(p) == IF p.kind = "separated" THEN ScriptCode(Contract(p)) ELSE Contract(p)
PreBytes(p, t, j) == PreimageBytes(PreimageOver(t, Commitments(t), j, Covered(p), flag))
SignFor(p, t, j, i) == Fingerprint(Pk(i), Sha256d(PreBytes(p, t, j)))
Sigs(p, t, j) == [i \in 1..Len(Signers) |-> SignFor(p, t, j, Signers[i])]
Script(p, t, j, sigs) == Unlock(p, sigs, [i \in 1..Len(sigs) |-> flag], PreBytes(p, t, j), AllOutputs(t))
Honest(p, t, j) == Script(p, t, j, Sigs(p, t, j))
Spends(p, t, j, u) == Accepts(Spending(t, j), u, LockBytes(p))

Things == {[what |-> w, k |-> 0] : w \in {"version", "lt", "addin", "addout"}}
     \cup {[what |-> w, k |-> j] : w \in {"prevhash", "vout", "seq", "value", "dropin"}, j \in 1..nin}
     \cup {[what |-> w, k |-> j] : w \in {"outvalue", "outscript", "dropout"}, j \in 1..nout}
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Changed(c) ==
  LET t == Base j == c.k IN
  CASE c.what = "version" -> [t EXCEPT !.version = LE(3, 4)]
    [] c.what = "lt" -> [t EXCEPT !.lt = LE(500000008, 4)]
    [] c.what = "addin" -> [t EXCEPT !.ins = Append(@, [prev |-> <<Rep(99, 32), LE(0, 4)>>, seq |-> LE(1, 4), value |-> LE(1, 8)])]
    [] c.what = "addout" -> [t EXCEPT !.outs = Append(@, <<LE(9, 8), <<Code(81)>>>>)]
    [] c.what = "prevhash" -> [t EXCEPT !.ins[j].prev[1] = Rep(50, 32)]
    [] c.what = "vout" -> [t EXCEPT !.ins[j].prev[2] = LE(77, 4)]
    [] c.what = "seq" -> [t EXCEPT !.ins[j].seq = <<77, 0, 64, 0>>]
    [] c.what = "value" -> [t EXCEPT !.ins[j].value = LE(77, 8)]
    [] c.what = "dropin" -> [t EXCEPT !.ins = Without(@, j)]
    [] c.what = "outvalue" -> [t EXCEPT !.outs[j][1] = LE(78, 8)]
    [] c.what = "outscript" -> [t EXCEPT !.outs[j][2] = <<Code(79)>>]
    [] c.what = "dropout" -> [t EXCEPT !.outs = Without(@, j)]
OnlyMine == flag >= 128
OnlyOne == flag % 32 = 3
All == flag % 32 = 1
Signed(c) ==
  CASE c.what \in {"version", "lt"} -> TRUE
    [] c.what \in {"prevhash", "vout"} -> c.k = at \/ ~OnlyMine
    [] c.what = "seq" -> c.k = at \/ (~OnlyMine /\ All)
    [] c.what = "value" -> c.k = at
    [] c.what = "addin" -> ~OnlyMine
    [] c.what \in {"outvalue", "outscript"} -> All \/ (OnlyOne /\ c.k = at)
    [] c.what = "addout" -> All \/ (OnlyOne /\ at = nout + 1)
    [] c.what = "dropout" -> All \/ (OnlyOne /\ c.k <= at /\ at <= nout)
    [] c.what = "dropin" -> ~OnlyMine /\ c.k # at
Comparable(c) == c.what = "dropin" => c.k # at /\ (c.k > at \/ ~OnlyOne)
Where(c) == IF c.what = "dropin" /\ c.k < at THEN at - 1 ELSE at
\* these look at the hash of all outputs, so it has to be there
Possible == kind \in {"covenant", "separated"} => All \/ (OnlyOne /\ nout = 1 /\ at = 1)

Init == /\ kind \in Kinds /\ flag \in {65, 66, 67, 193, 194, 195} /\ nin \in Ins /\ nout \in Outs /\ at \in 1..2 /\ at <= nin
        /\ pre = "no"
Next == pre = "no" /\ pre' = "yes" /\ UNCHANGED <<kind, flag, nin, nout, at>>
Spec == Init /\ [][Next]_vars
Now == pre = "yes"    \* judged in parallel

HonestSpends == Now => Spends(Terms, Base, at, Honest(Terms, Base, at)) = Possible
ChangesMatter == Now /\ Possible =>
  LET u == Honest(Terms, Base, at) IN
  \A c \in Things : Comparable(c) => Spends(Terms, Changed(c), Where(c), u) = ~Signed(c)
\* with other contract terms the same coin is not spendable, and neither is it by anyone else
OtherTerms == Now /\ Possible =>
  LET p == Terms t == Base sigs == Sigs(p, t, at) u == Honest(p, t, at) IN
  /\ ~Accepts(Spending(t, at), u, LockBytes([p EXCEPT !.pks[1] = Pk(9)]))
  /\ ~Spends(p, t, at, Script(p, t, at, [i \in 1..Len(sigs) |-> SignFor(p, t, at, 8)]))
  /\ ~Spends(p, t, at, Script(p, t, at, [i \in 1..Len(sigs) |-> Sha256(sigs[i])]))
  /\ ~Spends(p, t, at, u \o <<97>>)
  /\ ~Spends(p, t, at, <<81>> \o u)                     \* something left on the stack
  /\ kind \in {"many", "bare"} =>
       /\ ~Spends(p, t, at, Script(p, t, at, <<sigs[2], sigs[1]>>))
       /\ ~Spends(p, t, at, Script(p, t, at, <<sigs[1]>>))
       /\ \A i \in 1..2 : ~Spends(p, t, at, Script(p, t, at, <<sigs[i], sigs[i]>>))
  /\ kind = "puzzle" =>
       \A d \in {-1, 1} :
         /\ ~Spends(p, t, at, UnlockWith(p, [p EXCEPT !.y = @ + d], sigs, <<flag>>, <<>>, <<>>))
         /\ ~Spends(p, t, at, UnlockWith(p, [p EXCEPT !.x = @ + 3 * d, !.y = @ - 3 * d], sigs, <<flag>>, <<>>, <<>>))
  /\ kind = "claim" =>
       /\ ~Spends(p, t, at, UnlockWith(p, [p EXCEPT !.secret = <<7, 7>>], sigs, <<flag>>, <<>>, <<>>))
       /\ ~Spends(p, t, at, UnlockWith(p, [p EXCEPT !.kind = "refund"], sigs, <<flag>>, <<>>, <<>>))
  /\ kind = "refund" => ~Spends(p, t, at, UnlockWith(p, [p EXCEPT !.kind = "claim"], sigs, <<flag>>, <<>>, <<>>))
  /\ kind \in {"covenant", "separated"} =>
       ~Spends(p, t, at, Unlock(p, sigs, <<flag>>, PreBytes(p, t, at), AllOutputs(t) \o <<0>>))
\* lock times: signed properly for a transaction that comes too early
TooEarly == Now /\ kind = "time" =>
  LET p == Terms t == Base
      spends(x) == Spends(p, x, at, Honest(p, x, at))
      block == [p EXCEPT !.until = 5] IN
  /\ ~Spends(block, t, at, Honest(block, t, at))
  /\ LET x == [t EXCEPT !.lt = LE(5, 4)] IN Spends(block, x, at, Honest(block, x, at)) /\ ~spends(x)
  /\ spends([t EXCEPT !.lt = LE(Until, 4)]) /\ ~spends([t EXCEPT !.lt = LE(Until - 1, 4)])
  /\ ~spends([t EXCEPT !.lt = LE(499999999, 4)]) /\ spends([t EXCEPT !.lt = Rep(255, 4)])
  /\ spends([t EXCEPT !.ins[at].seq = <<9, 0, 64, 0>>]) /\ ~spends([t EXCEPT !.ins[at].seq = <<8, 0, 64, 0>>])
  /\ spends([t EXCEPT !.ins[at].seq = <<9, 0, 255, 127>>]) /\ ~spends([t EXCEPT !.ins[at].seq = <<9, 0, 0, 0>>])
  /\ ~spends([t EXCEPT !.ins[at].seq = <<9, 0, 64, 128>>]) /\ ~spends([t EXCEPT !.ins[at].seq = Rep(255, 4)])
  /\ ~spends([t EXCEPT !.version = LE(1, 4)]) /\ spends([t EXCEPT !.version = Rep(255, 4)])
===============================================================================
