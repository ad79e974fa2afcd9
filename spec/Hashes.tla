-------------------------------- MODULE Hashes --------------------------------
(* Hash functions of the protocol.  The three primitives are mathematical      *)
(* functions TLC cannot evaluate symbolically; TLC evaluates them through       *)
(* java/Hashes.java (SHA from the JDK, RIPEMD-160 written from its              *)
(* definition).  The ASSUMEs below pin them to published test vectors.          *)
EXTENDS Bytes
Sha1(b) == CHOOSE x \in Seq(Byte) : Len(x) = 20
Sha256(b) == CHOOSE x \in Seq(Byte) : Len(x) = 32
Ripemd160(b) == CHOOSE x \in Seq(Byte) : Len(x) = 20
Sha256d(b) == Sha256(Sha256(b))
Hash160(b) == Ripemd160(Sha256(b))

ASSUME Take(Sha1(<<97, 98, 99>>), 4) = <<169, 153, 62, 54>>
ASSUME Take(Sha256(<<97, 98, 99>>), 4) = <<186, 120, 22, 191>>
ASSUME Take(Ripemd160(<<97, 98, 99>>), 4) = <<142, 178, 8, 247>>
ASSUME Take(Ripemd160(<<>>), 4) = <<156, 17, 133, 165>>
\* RIPEMD160(80 digits 1234567890...) = 9b752e45573d4b39f4dbd3323cab82bf63326bfb
ASSUME Ripemd160([i \in 1..80 |-> 48 + (i % 10)]) =
       <<155, 117, 46, 69, 87, 61, 75, 57, 244, 219, 211, 50, 60, 171, 130, 191, 99, 50, 107, 251>>
===============================================================================
