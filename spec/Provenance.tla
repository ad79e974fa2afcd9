------------------------------ MODULE Provenance ------------------------------
(* Annotated byte arrays: data, optional name, function, optional parts          *)
(* (preimage).  Options are <<>> or <<x>>.                                       *)
EXTENDS Hashes

Leaf(d) == [d |-> d, n |-> <<>>, f |-> "Plain", p |-> <<>>]
Arr(d, n, f, p) == [d |-> d, n |-> n, f |-> f, p |-> p]
Functions == {"Plain", "Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160", "Num2Bin", "EcdsaSign",
              "SchnorrSign", "ToDataSig", "UnexpectedSplit", "Reverse"}
Intact(f) == f \notin {"Plain", "Num2Bin", "EcdsaSign", "SchnorrSign", "ToDataSig"}

PartsOf(a) == IF a.f = "Plain" /\ a.p # <<>> THEN a.p[1] ELSE <<a>>
ConcatAs(a, b, n) ==
  Arr(a.d \o b.d, n, "Plain",
      <<IF a.f = "Plain" /\ b.f = "Plain" THEN PartsOf(a) \o PartsOf(b) ELSE <<a, b>> >>)
Concat(a, b) == ConcatAs(a, b, <<>>)
FromParts(ps) == IF ps = <<>> THEN Leaf(<<>>) ELSE FoldLeft(LAMBDA acc, x : Concat(acc, x), ps[1], Tail(ps))

\* splitting; the caller guarantees at <= Len(a.d).  Both halves lose the name.
RECURSIVE SplitAt(_, _)
RECURSIVE SplitParts(_, _, _, _, _)
SplitParts(ps, i, start, at, acc) ==
  IF i > Len(ps) THEN acc
  ELSE LET q == ps[i] len == Len(q.d) nx == start + len IN
       IF start >= at THEN SplitParts(ps, i + 1, nx, at, [acc EXCEPT !.r = Append(@, q)])
       ELSE IF nx <= at THEN SplitParts(ps, i + 1, nx, at, [acc EXCEPT !.l = Append(@, q)])
       ELSE LET h == SplitAt(q, at - start)
                mark(x) == IF Intact(q.f) THEN [x EXCEPT !.f = "UnexpectedSplit"] ELSE x
            IN SplitParts(ps, i + 1, nx, at, [l |-> Append(acc.l, mark(h.l)), r |-> Append(acc.r, mark(h.r))])
SplitAt(a, at) ==
  LET l == Take(a.d, at) r == Drop(a.d, at) IN
  IF a.p = <<>> THEN [l |-> Leaf(l), r |-> Leaf(r)]
  ELSE IF a.f = "Plain"
       THEN LET h == SplitParts(a.p[1], 1, 0, at, [l |-> <<>>, r |-> <<>>])
            IN [l |-> Arr(l, <<>>, "Plain", <<h.l>>), r |-> Arr(r, <<>>, "Plain", <<h.r>>)]
  ELSE LET f == IF Intact(a.f) THEN "UnexpectedSplit" ELSE "Plain"
       IN [l |-> Arr(l, <<>>, f, <<>>), r |-> Arr(r, <<>>, f, <<>>)]
SplitOK(a, at) == at <= Len(a.d)
Named(a, n) == [a EXCEPT !.n = n]
ApplyF(a, d, f) == Arr(d, <<>>, f, <<<<a>>>>)
HashOf(h, b) == CASE h = "Sha1" -> Sha1(b) [] h = "Ripemd160" -> Ripemd160(b) [] h = "Sha256" -> Sha256(b)
                  [] h = "Hash256" -> Sha256d(b) [] h = "Hash160" -> Hash160(b)
HashFunctions == {"Sha1", "Ripemd160", "Sha256", "Hash256", "Hash160"}
HashArr(h, a) == ApplyF(a, HashOf(h, a.d), h)

\* number padding: sign-magnitude little-endian in exactly n bytes, sign in the top bit
PadFits(v, n) == n >= 1 /\ (n >= 4 \/ (LET m == IF v < 0 THEN -v ELSE v IN m < 2 ^ (8 * n - 1)))
PadTo(v, n) == LET m == IF v < 0 THEN -v ELSE v
                   b == LE(m, n)
               IN IF v < 0 THEN [b EXCEPT ![n] = @ + 128] ELSE b
Padded(v, n) == Arr(PadTo(v, n), <<>>, "Num2Bin", <<>>)

-------------------------------------------------------------------------------
(* The recorded derivation never lies. *)
RECURSIVE Consistent(_)
Consistent(a) ==
  a.p # <<>> =>
    /\ \A i \in 1..Len(a.p[1]) : Consistent(a.p[1][i])
    /\ a.f = "Plain" => a.d = CatAll([i \in 1..Len(a.p[1]) |-> a.p[1][i].d])
    /\ a.f \in HashFunctions => Len(a.p[1]) = 1 /\ a.d = HashOf(a.f, a.p[1][1].d)
===============================================================================
