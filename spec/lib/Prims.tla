------------------------------- MODULE Prims -------------------------------
(* Trusted primitives.  Every operator here is evaluated by an independent *)
(* Java implementation (java/owc, loaded as TLC module overrides); the     *)
(* definitions below only fix arities.  Byte strings are sequences over    *)
(* 0..255; wide integers are big-endian byte strings.                      *)
EXTENDS Integers, Sequences

HexBytes(s) == CHOOSE x \in {} : s      \* "0aff" -> <<10,255>>
IsHex(s) == CHOOSE x \in {} : s
ToHex(b) == CHOOSE x \in {} : b
StrBytes(s) == CHOOSE x \in {} : s
BytesStr(b) == CHOOSE x \in {} : b
StrCat(a, b) == CHOOSE x \in {} : a
Upper(s) == CHOOSE x \in {} : s
Lower(s) == CHOOSE x \in {} : s
SubStr(s, a, b) == CHOOSE x \in {} : s
StrLen(s) == CHOOSE x \in {} : s
JsonStr(s) == CHOOSE x \in {} : s
DecStr(b) == CHOOSE x \in {} : b
DecBytes(s) == CHOOSE x \in {} : s
BigAdd(a, b) == CHOOSE x \in {} : a
BigMulInt(a, k) == CHOOSE x \in {} : a
BigSub(a, b) == CHOOSE x \in {} : a
BigCmp(a, b) == CHOOSE x \in {} : a     \* -1, 0, 1
BigMod(a, b) == CHOOSE x \in {} : a

LoadTrace(f) == CHOOSE x \in {} : f     \* ndJsonDeserialize(f), read once
Emit(s) == TRUE                          \* writes one line to the log

SHA256(b) == CHOOSE x \in {} : b
SHA512(b) == CHOOSE x \in {} : b
RIPEMD160(b) == CHOOSE x \in {} : b
KECCAK256(b) == CHOOSE x \in {} : b
SHA3x256(b) == CHOOSE x \in {} : b
BLAKE256(b) == CHOOSE x \in {} : b
BLAKEx(b, n, salt) == CHOOSE x \in {} : b      \* BLAKE-256 or BLAKE-224 with a salt of 16 bytes
BLAKE2B(b, n) == CHOOSE x \in {} : b
HMACSHA512(k, b) == CHOOSE x \in {} : b

(* curves: "k1" "r1" "sm2" "pasta" "bls" "ed" *)
PubOf(c, k) == CHOOSE x \in {} : k
PointAddG(c, p, k) == CHOOSE x \in {} : p
CurveOrder(c) == CHOOSE x \in {} : c
Decompress(c, p) == CHOOSE x \in {} : p
EcdsaOK(c, pub, dig, sig) == CHOOSE x \in {} : pub
Recover(c, dig, sig, v) == CHOOSE x \in {} : sig
EdOK(pub, msg, sig) == CHOOSE x \in {} : pub
XEdOK(pub, msg, sig) == CHOOSE x \in {} : pub
EdToX(pub) == CHOOSE x \in {} : pub
=============================================================================
