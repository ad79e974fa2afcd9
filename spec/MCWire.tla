-------------------------------- MODULE MCWire --------------------------------
(* The wire codec on a small universe: encoding then decoding is the identity    *)
(* with any following bytes; decoding never reads past the end; whatever decodes *)
(* re-encodes to something that decodes to the same value.  The second half      *)
(* walks every byte string over an alphabet, one byte at a time.                 *)
EXTENDS Wire
CONSTANT MaxN
Small == TStruct(<<Fix(1), TBytes, TVec(TStruct(<<TBool, TVec(Fix(2))>>)), TScript>>)
Alphabet == {0, 1, 2, 76, 97, 253, 254}
VARIABLES buf
Init == buf = <<>>
Next == Len(buf) < MaxN /\ \E b \in Alphabet : buf' = Append(buf, b)
Spec == Init /\ [][Next]_buf
Types == {Small, TVec(TBytes), TStruct(<<TBool, TScript>>), TVec(TVec(Fix(1)))}
ReadsInside == \A t \in Types : LET d == Dec(t, buf, 1) IN d.ok => d.p \in 1..(Len(buf) + 1)
Reencodes == \A t \in Types : LET d == Dec(t, buf, 1) IN
  d.ok => LET e == Enc(t, d.v) r == Dec(t, e \o <<9, 9>>, 1)
          IN /\ r.ok /\ r.p = Len(e) + 1 /\ Len(e) <= d.p - 1
             /\ \* pushes may have been written overlong; otherwise the value is the same
                Enc(t, r.v) = e
\* a prefix that decodes is not changed by what follows
PrefixStable == \A t \in Types : LET d == Dec(t, buf, 1) IN
  d.ok => Dec(t, buf \o <<0>>, 1) = d
Truncated == \A t \in Types : LET d == Dec(t, buf, 1) IN
  d.ok => \A k \in 0..(d.p - 2) : ~Dec(t, Take(buf, k), 1).ok
===============================================================================
