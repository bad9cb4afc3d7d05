-------------------------------- MODULE Text --------------------------------
(* The general-purpose codecs the packages export: Base58 and Base58Check     *)
(* over any alphabet of 58 code points, Base64, bech32 and bech32m, bit       *)
(* regrouping, CRC-32, BLAKE.  Texts are sequences of code points.            *)
EXTENDS Dot
Index(al, c) == CHOOSE j \in 1..Len(al) : al[j] = c

B58Text(b, al) ==
    LET d == Zeros(LeadZeros(b)) \o Convert(b, 256, 58)
    IN [j \in 1..Len(d) |-> al[d[j] + 1]]
B58Bytes(t, al) ==          \* {} or {bytes}
    IF ~(Range(t) \subseteq Range(al)) THEN {}
    ELSE LET ix == [c \in Range(t) |-> Index(al, c) - 1]
             d == [j \in 1..Len(t) |-> ix[t[j]]]
         IN {Zeros(LeadZeros(d)) \o Convert(d, 58, 256)}
BtcAlpha == StrBytes("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
XrpAlpha == StrBytes("rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz")
Sum4(kind, b) ==
    Take(CASE kind = "blake" -> BLAKE256(BLAKE256(b))
           [] kind = "vsys" -> KECCAK256(BLAKE2B(b, 32))
           [] OTHER -> DSHA256(b), 4)
CheckText(kind, b) == B58Text(b \o Sum4(kind, b), BtcAlpha)
CheckBytes(kind, t, al) ==      \* {} or {the bytes before the checksum}
    {Take(b, Len(b) - 4) : b \in {c \in B58Bytes(t, al) : Len(c) >= 4 /\ Sum4(kind, Take(c, Len(c) - 4)) = Drop(c, Len(c) - 4)}}

Base64Text(b, al) ==
    LET d == Regroup(b, 8, 6)
    IN [j \in 1..Len(d) |-> al[d[j] + 1]] \o Rep(61, (3 - (Len(b) % 3)) % 3)
(* line breaks are skipped; the text is padded; the bits that do not fit are not looked at *)
Base64Bytes(text, al) ==
    LET t == SelectSeq(text, LAMBDA c : c \notin {10, 13})
        pad == IF t # <<>> /\ t[Len(t)] = 61 THEN (IF Len(t) > 1 /\ t[Len(t) - 1] = 61 THEN 2 ELSE 1) ELSE 0
        body == Take(t, Len(t) - pad)
    IN IF Len(t) % 4 # 0 \/ ~(Range(body) \subseteq Range(al)) THEN {}
       ELSE LET ix == [c \in Range(body) |-> Index(al, c) - 1]
                d == [j \in 1..Len(body) |-> ix[body[j]]]
            IN {Take(Regroup(d, 6, 8), (Len(body) * 6) \div 8)}

B32Text(hrp, d, const) ==
    LET a == StrBytes(B32)
        s == d \o Bech32Sum(hrp, d, const)
    IN hrp \o <<49>> \o [j \in 1..Len(s) |-> a[s[j] + 1]]
B32Parse(t) ==              \* {} or {[hrp, data, kind]}
    LET l == LowerT(t)
        ones == {j \in 1..Len(l) : l[j] = 49}
    IN IF Len(t) > 90 \/ ones = {} \/ ~OneCase(t) \/ ~(\A j \in 1..Len(t) : t[j] \in 33..126) THEN {}
       ELSE LET p == CHOOSE j \in ones : \A k \in ones : k <= j
                hrp == Take(l, p - 1)
                rest == Drop(l, p)
            IN IF p < 2 \/ Len(rest) < 6 \/ ~InAlpha(rest, B32) THEN {}
               ELSE LET d == Digits(rest, B32)
                        body == Take(d, Len(d) - 6)
                        is(c) == Bech32Sum(hrp, body, c) = Drop(d, Len(d) - 6)
                    IN IF is(Bech32Const) THEN {[hrp |-> hrp, data |-> body, kind |-> 1]}
                       ELSE IF is(Bech32mConst) THEN {[hrp |-> hrp, data |-> body, kind |-> 2]} ELSE {}

(* regrouping without padding: what is left over is shorter than a symbol (Bytom: than five bits) and zero *)
Ungroup(d, from, to, most) ==
    LET bits == Bits([j \in 1..Len(d) |-> d[j] % (2 ^ from)], from)
        n == Len(bits) \div to
        left == Drop(bits, n * to)
    IN IF Len(left) > most \/ (\E j \in 1..Len(left) : left[j] = 1) THEN {}
       ELSE {[k \in 1..n |-> FromBits(SubSeq(bits, (k - 1) * to + 1, k * to))]}
Group(d, from, to) == Regroup([j \in 1..Len(d) |-> d[j] % (2 ^ from)], from, to)

(* CRC-32 in two halves of 16 bits *)
CrcShift(c) ==
    LET s == <<c[1] \div 2, (c[1] % 2) * 32768 + (c[2] \div 2)>>
    IN IF c[2] % 2 = 1 THEN <<s[1] ^^ 60856, s[2] ^^ 33568>> ELSE s
CrcByte(c, x) == FoldLeft(LAMBDA a, k : CrcShift(a), <<c[1], c[2] ^^ x>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)
CRC32(b) ==
    LET c == FoldLeft(CrcByte, <<65535, 65535>>, b)
    IN IntBE(65535 - c[1], 2) \o IntBE(65535 - c[2], 2)
=============================================================================
