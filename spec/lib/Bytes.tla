------------------------------- MODULE Bytes -------------------------------
(* Byte-string vocabulary shared by every driver specification.            *)
EXTENDS Prims, TLC, FiniteSets, SequencesExt, Bitwise

Byte == 0..255
Rev(b) == Reverse(b)
Rep(x, n) == [i \in 1..n |-> x]
Zeros(n) == Rep(0, n)
Take(b, n) == SubSeq(b, 1, n)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
At(b, from, n) == SubSeq(b, from + 1, from + n)          \* zero-based slice
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)      \* concatenation
CatStr(ss) == FoldLeft(LAMBDA a, x : StrCat(a, x), "", ss)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
JoinStr(ss, sep) ==
    IF ss = <<>> THEN ""
    ELSE FoldLeft(LAMBDA a, x : StrCat(StrCat(a, sep), x), ss[1], Tail(ss))

JList(ss) == CatStr(<<"[", JoinStr(ss, ","), "]">>)

(* Strip leading zeros / pad on the left: canonical forms of naturals. *)
RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
PadL(b, n) == IF Len(b) >= n THEN SubSeq(b, Len(b) - n + 1, Len(b)) ELSE Zeros(n - Len(b)) \o b
LE(b, n) == Rev(PadL(b, n))                               \* n-byte little endian of a big-endian natural
BE(b, n) == PadL(b, n)
Fits(b, n) == Len(Strip(b)) <= n

(* Small TLC integers to bytes. *)
RECURSIVE IntBE(_, _)
IntBE(x, n) == IF n = 0 THEN <<>> ELSE IntBE(x \div 256, n - 1) \o <<x % 256>>
IntLE(x, n) == Rev(IntBE(x, n))
ToInt(b) == FoldLeft(LAMBDA a, x : a * 256 + x, 0, b)     \* only for values < 2^31

(* Bitcoin CompactSize of a count *)
CompactSize(n) == IF n < 253 THEN <<n>>
                  ELSE IF n < 65536 THEN <<253>> \o IntLE(n, 2)
                  ELSE <<254>> \o IntLE(n, 4)
VarBytes(b) == CompactSize(Len(b)) \o b

(* LEB128 (Go binary.PutUvarint) of a small integer *)
RECURSIVE UvarInt(_)
UvarInt(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o UvarInt(n \div 128)

(* Base conversion of digit sequences, most significant digit first. *)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(d, m, c, base) ==          \* d*m + c in the given base; d least significant first
    IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % base>> \o MulAdd(<<>>, m, c \div base, base))
    ELSE LET t == d[1] * m + c IN <<t % base>> \o MulAdd(Tail(d), m, t \div base, base)
Convert(digits, from, to) ==      \* canonical (no leading zero) representation
    Rev(FoldLeft(LAMBDA a, x : MulAdd(a, from, x, to), <<>>, digits))

LeadZeros(b) == LET nz == {i \in 1..Len(b) : b[i] # 0}
                IN IF nz = {} THEN Len(b) ELSE (CHOOSE i \in nz : \A j \in nz : i <= j) - 1

(* LEB128 of an arbitrary natural given big endian *)
UvarBig(b) == LET d == Convert(Strip(b), 256, 128)
                  dd == IF d = <<>> THEN <<0>> ELSE d
              IN [i \in 1..Len(dd) |-> LET x == dd[Len(dd) - i + 1]
                                       IN IF i = Len(dd) THEN x ELSE 128 + x]

HASH160(b) == RIPEMD160(SHA256(b))
DSHA256(b) == SHA256(SHA256(b))
SHA512Half(b) == Take(SHA512(b), 32)

(* text <-> alphabet indices *)
AlphaIdx(alpha) == LET a == StrBytes(alpha)
                   IN [c \in {a[i] : i \in 1..Len(a)} |-> (CHOOSE i \in 1..Len(a) : a[i] = c) - 1]
EncDigits(digits, alpha) == LET a == StrBytes(alpha) IN BytesStr([i \in 1..Len(digits) |-> a[digits[i] + 1]])

(* regrouping of bit strings, most significant first: bytes <-> 5-bit symbols *)
BitsOf(x, n) == [i \in 1..n |-> (x \div (2 ^ (n - i))) % 2]
FromBits(bs) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bs)
Bits(b, w) == Cat([i \in 1..Len(b) |-> BitsOf(b[i], w)])
Regroup(b, w, v) ==        \* w-bit symbols to v-bit symbols, zero padded at the end
    LET bs == Bits(b, w)
        n == (Len(bs) + v - 1) \div v
        pad == bs \o Zeros(n * v - Len(bs))
    IN [i \in 1..n |-> FromBits(SubSeq(pad, (i - 1) * v + 1, i * v))]

Low32(b) == b                      \* documentation only
HalfOrderK1 == HexBytes("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0")
HalfOrderR1 == HexBytes("7fffffff800000007fffffffffffffffde737d56d38bcf4279dce5617e3192a8")

(* strict DER of an r||s signature *)
DerInt(b) == LET s == Strip(b)
                 t == IF s = <<>> THEN <<0>> ELSE s
                 u == IF t[1] >= 128 THEN <<0>> \o t ELSE t
             IN <<2, Len(u)>> \o u
Der(sig) == LET body == DerInt(Take(sig, 32)) \o DerInt(Drop(sig, 32)) IN <<48, Len(body)>> \o body

HighS(sig) == BigCmp(Drop(sig, 32), HalfOrderK1) > 0
HighR1(sig) == BigCmp(Drop(sig, 32), HalfOrderR1) > 0

(* Readers return [ok, v, i]: value and next offset. *)
Bad == [ok |-> FALSE, v |-> <<>>, i |-> 0]
RdN(b, i, n) == IF i + n <= Len(b) THEN [ok |-> TRUE, v |-> At(b, i, n), i |-> i + n] ELSE Bad
RdCount(b, i) ==        \* canonical CompactSize up to 65535
    IF i >= Len(b) THEN Bad
    ELSE IF b[i + 1] < 253 THEN [ok |-> TRUE, v |-> b[i + 1], i |-> i + 1]
    ELSE IF b[i + 1] = 253 /\ i + 3 <= Len(b)
         THEN LET n == b[i + 2] + 256 * b[i + 3] IN IF n >= 253 THEN [ok |-> TRUE, v |-> n, i |-> i + 3] ELSE Bad
    ELSE Bad
RdVar(b, i) == LET c == RdCount(b, i) IN IF c.ok THEN RdN(b, c.i, c.v) ELSE Bad
RECURSIVE RdList(_, _, _, _, _)
RdList(rd(_, _), b, i, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, i |-> i]
    ELSE LET x == rd(b, i) IN IF x.ok THEN RdList(rd, b, x.i, n - 1, Append(acc, x.v)) ELSE Bad
Split(b, c) ==          \* the parts of b between the separators c
    LET ks == <<0>> \o SetToSortSeq({k \in 1..Len(b) : b[k] = c}, LAMBDA x, y : x < y) \o <<Len(b) + 1>>
    IN [j \in 1..(Len(ks) - 1) |-> SubSeq(b, ks[j] + 1, ks[j + 1] - 1)]

(* scripts of the Bitcoin family and its forks *)
P2PKHScript(h) == <<118, 169, 20>> \o h \o <<136, 172>>
P2SHScript(h) == <<169, 20>> \o h \o <<135>>
DerPush(sig, st) == LET d == Der(sig) \o <<st>> IN <<Len(d)>> \o d

(* partial results: {} = refused, {x} = x *)
One(s) == CHOOSE x \in s : TRUE
AllOf(ss) == IF \E i \in 1..Len(ss) : ss[i] = {} THEN {} ELSE {[i \in 1..Len(ss) |-> One(ss[i])]}
HexOf(s) == IF IsHex(s) THEN {HexBytes(s)} ELSE {}
HexOfLen(s, n) == {b \in HexOf(s) : Len(b) = n}

(* verdicts of trace specifications *)
Yes(s) == [ok |-> TRUE, st |-> s, exp |-> ""]
No(s, x) == [ok |-> FALSE, st |-> s, exp |-> x]
Must(b, s, x) == IF b THEN Yes(s) ELSE No(s, x)
=============================================================================
