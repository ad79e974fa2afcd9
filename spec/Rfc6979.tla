-------------------------------- MODULE Rfc6979 --------------------------------
(* Deterministic nonce of RFC 6979 (HMAC-SHA256, 256-bit group order).            *)
EXTENDS Hashes
LOCAL INSTANCE Bitwise
PadKey(k) == k \o [i \in 1..(64 - Len(k)) |-> 0]
XorAll(b, c) == [i \in 1..Len(b) |-> b[i] ^^ c]
\* for keys of at most 64 bytes
Hmac256(k, m) == Sha256(XorAll(PadKey(k), 92) \o Sha256(XorAll(PadKey(k), 54) \o m))
Feed(st, mid, data) == LET k == Hmac256(st.k, st.v \o mid \o data) IN [k |-> k, v |-> Hmac256(k, st.v)]
NonceStart(x, h) ==
  Feed(Feed([k |-> [i \in 1..32 |-> 0], v |-> [i \in 1..32 |-> 1]], <<0>>, x \o h), <<1>>, x \o h)
\* candidates one after the other
NonceStep(st) == LET v == Hmac256(st.k, st.v) IN [st EXCEPT !.v = v]
NonceRetry(st) == Feed(st, <<0>>, <<>>)
\* RFC 4231 test case 2
ASSUME SubSeq(Hmac256(<<74, 101, 102, 101>>, <<119,104,97,116,32,100,111,32,121,97,32,119,97,110,116,32,102,111,114,32,110,111,116,104,105,110,103,63>>), 1, 4)
       = <<91, 220, 193, 70>>
===============================================================================
