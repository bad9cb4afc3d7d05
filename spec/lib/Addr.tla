-------------------------------- MODULE Addr --------------------------------
(* Address and key texts of the supported networks (addressEncoder).         *)
(*   AddrText(P, x)  the text of x (payload bytes, or data to be hashed)     *)
(*   AddrParse(P, t) set of payloads the text t denotes: {} or a singleton   *)
EXTENDS Bytes, AddrProfiles

------------------------------------------------------------------------------
HashOf(h, x) ==
    CASE h = "h160" -> HASH160(x)
      [] h = "blake2b160" -> BLAKE2B(x, 20)
      [] h = "ripemd160" -> RIPEMD160(x)
      [] h = "keccak256_ripemd160" -> RIPEMD160(KECCAK256(x))
      [] h = "sha3_256_ripemd160" -> RIPEMD160(SHA3x256(x))
      [] h = "keccak256" -> KECCAK256(x)
      [] h = "sha3_256_last_twenty" -> Drop(SHA3x256(x), 12)
      [] h = "keccak256_last_twenty" -> Drop(KECCAK256(x), 12)
      [] h = "blake2b_and_keccak256_first_twenty" -> Take(KECCAK256(BLAKE2B(x, 32)), 20)

Chk4(c, x) ==
    Take(CASE c = "doubleSHA256" -> DSHA256(x)
           [] c = "doubleBlake256" -> BLAKE256(BLAKE256(x))
           [] c = "keccak256" -> KECCAK256(x)
           [] c = "sha3_256" -> SHA3x256(x)
           [] c = "blake2b_and_keccak256_first_twenty" -> KECCAK256(BLAKE2B(x, 32))
           [] c = "ripemd160" -> RIPEMD160(x), 4)

------------------------------------------------------------------------------
(* Base58: big-endian radix conversion, one leading zero symbol per leading  *)
(* zero byte.                                                                *)
Base58(b, alpha) == LET a == StrBytes(alpha)
                        d == Zeros(LeadZeros(b)) \o Convert(b, 256, 58)
                    IN [i \in 1..Len(d) |-> a[d[i] + 1]]
InAlpha(t, alpha) == LET a == StrBytes(alpha) IN \A i \in 1..Len(t) : \E j \in 1..Len(a) : a[j] = t[i]
Digits(t, alpha) == LET ix == AlphaIdx(alpha) IN [i \in 1..Len(t) |-> ix[t[i]]]
UnBase58(t, alpha) == LET d == Digits(t, alpha) IN Zeros(LeadZeros(d)) \o Convert(d, 58, 256)

(* Base58 with a four-byte check *)
B58Check(x, c, alpha) == Base58(x \o Chk4(c, x), alpha)
B58Payload(t, c, alpha) ==          \* {} or {payload}
    IF ~InAlpha(t, alpha) THEN {}
    ELSE LET b == UnBase58(t, alpha)
             n == Len(b) - 4
         IN IF n < 0 THEN {} ELSE IF Chk4(c, Take(b, n)) = Drop(b, n) THEN {Take(b, n)} ELSE {}

------------------------------------------------------------------------------
(* Bech32 / Bech32m *)
Gen32 == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
PolyStep(c, v) ==
    LET top == c \div 33554432
        b == ((c % 33554432) * 32) ^^ v
    IN FoldLeft(LAMBDA a, k : IF (top \div (2 ^ (k - 1))) % 2 = 1 THEN a ^^ Gen32[k] ELSE a, b, <<1, 2, 3, 4, 5>>)
Poly32(vs) == FoldLeft(PolyStep, 1, vs)
HrpExpand(h) == [i \in 1..Len(h) |-> h[i] \div 32] \o <<0>> \o [i \in 1..Len(h) |-> h[i] % 32]
Bech32Sum(h, d, const) ==
    LET m == Poly32(HrpExpand(h) \o d \o Zeros(6)) ^^ const
    IN [i \in 1..6 |-> (m \div (2 ^ (5 * (6 - i)))) % 32]
Bech32(hrp, d, const) ==
    LET h == StrBytes(hrp)
        a == StrBytes(B32)
        s == d \o Bech32Sum(h, d, const)
    IN h \o <<49>> \o [i \in 1..Len(s) |-> a[s[i] + 1]]
Bech32Const == 1
Bech32mConst == 734539939

Bech32Data(hrp, t, const) ==        \* {} or {5-bit symbols without check}
    LET h == StrBytes(hrp)
        n == Len(h) + 1
    IN IF Len(t) < n + 6 \/ Take(t, n) # h \o <<49>> \/ ~InAlpha(Drop(t, n), B32) THEN {}
       ELSE LET d == Digits(Drop(t, n), B32)
                m == Len(d) - 6
            IN IF Bech32Sum(h, Take(d, m), const) = Drop(d, m) THEN {Take(d, m)} ELSE {}

(* 5-bit symbols back to bytes: fewer than 5 padding bits, all zero *)
UnFive(d) == LET n == (Len(d) * 5) \div 8
                 b == Take(Regroup(d, 5, 8), n)
             IN IF Regroup(b, 8, 5) = d THEN {b} ELSE {}

------------------------------------------------------------------------------
(* CashAddr: 40-bit BCH code, kept as two 20-bit halves *)
GenC == << <<626475, 822881>>, <<498550, 891362>>, <<996325, 1029060>>, <<713450, 778920>>, <<124148, 255088>> >>
CashStep(c, v) ==
    LET top == c[1] \div 32768
        hi == (c[1] % 32768) * 32 + (c[2] \div 32768)
        lo == ((c[2] % 32768) * 32) ^^ v
    IN FoldLeft(LAMBDA a, k : IF (top \div (2 ^ (k - 1))) % 2 = 1 THEN <<a[1] ^^ GenC[k][1], a[2] ^^ GenC[k][2]>> ELSE a,
                <<hi, lo>>, <<1, 2, 3, 4, 5>>)
CashSum(hrp, d) ==
    LET h == StrBytes(hrp)
        m == FoldLeft(CashStep, <<0, 1>>, [i \in 1..Len(h) |-> h[i] % 32] \o <<0>> \o d \o Zeros(8))
        lo == m[2] ^^ 1
    IN [i \in 1..4 |-> (m[1] \div (2 ^ (5 * (4 - i)))) % 32] \o [i \in 1..4 |-> (lo \div (2 ^ (5 * (4 - i)))) % 32]
(* payload = type byte (0 key hash, 1 script hash) and 20 bytes of hash *)
CashText(hrp, x) ==
    LET d == Regroup(<<x[1] * 8>> \o Tail(x), 8, 5)
        s == d \o CashSum(hrp, d)
        a == StrBytes(B32)
    IN StrBytes(hrp) \o <<58>> \o [i \in 1..Len(s) |-> a[s[i] + 1]]
CashParse(hrp, t) ==
    LET h == StrBytes(hrp)
        n == Len(h) + 1
    IN IF Len(t) < n + 8 \/ Take(t, n) # h \o <<58>> \/ ~InAlpha(Drop(t, n), B32) THEN {}
       ELSE LET d == Digits(Drop(t, n), B32)
                m == Len(d) - 8
            IN IF CashSum(hrp, Take(d, m)) # Drop(d, m) THEN {}
               ELSE {<<b[1] \div 8>> \o Tail(b) : b \in {c \in UnFive(Take(d, m)) : Len(c) = 21 /\ c[1] % 8 = 0 /\ c[1] < 128}}

------------------------------------------------------------------------------
(* Monero: eight-byte blocks, eleven symbols each; the last five bytes take seven *)
XmrBlock(b, w, alpha) == LET d == Convert(b, 256, 58)
                             z == Zeros(w - Len(d)) \o d
                             a == StrBytes(alpha)
                         IN [i \in 1..w |-> a[z[i] + 1]]
XmrText(x, alpha) ==
    LET n == Len(x) \div 8
    IN Cat([k \in 1..n |-> XmrBlock(SubSeq(x, 8 * k - 7, 8 * k), 11, alpha)])
       \o XmrBlock(Drop(x, 8 * n), 7, alpha)
XmrUnBlock(t, n, alpha) == LET b == Convert(Digits(t, alpha), 58, 256) IN IF Len(b) > n THEN {} ELSE {PadL(b, n)}
XmrBytes(t, alpha) ==       \* {} or {bytes}; t has 11 k + 7 symbols
    LET k == Len(t) \div 11
        blk(i) == IF i <= k THEN XmrUnBlock(SubSeq(t, 11 * i - 10, 11 * i), 8, alpha)
                  ELSE XmrUnBlock(Drop(t, 11 * k), 5, alpha)
        bs == [i \in 1..(k + 1) |-> blk(i)]
    IN IF \E i \in 1..(k + 1) : bs[i] = {} THEN {}
       ELSE {Cat([i \in 1..(k + 1) |-> CHOOSE y \in bs[i] : TRUE])}

------------------------------------------------------------------------------
HexText(b) == StrBytes(ToHex(b))
IsHexText(t) == \A i \in 1..Len(t) : t[i] \in 48..57 \cup 65..70 \cup 97..102
UnHexText(t) == HexBytes(BytesStr(t))

EncUp(s) == Upper(s)
(* Which payload lengths a profile carries *)
Lens(P) == IF P.enc = "bech32" /\ P.pre # <<>> THEN {20, 32} ELSE {P.len}

(* What AddressEncode encodes: the data itself if it already has the         *)
(* profile's length, its hash otherwise (Bech32 forms never hash).           *)
PayloadOf(P, x) == IF P.enc \in {"bech32", "bech32m"} \/ Len(x) = P.len THEN x ELSE HashOf(P.hash, x)

Text(P, h) ==
    CASE P.enc = "base58" -> B58Check(P.pre \o h \o P.suf, P.chk, P.alpha)
      [] P.enc = "bech32" -> Bech32(P.chk, P.pre \o Regroup(h, 8, 5), Bech32Const)
      [] P.enc = "bech32m" -> Bech32(P.chk, Regroup(h, 8, 5), Bech32mConst)
      [] P.enc = "base32PolyMod" -> CashText(P.chk, h)
      [] P.enc = "eip55" -> HexText(Drop(h, 12))
      [] P.enc = "ICX" -> StrBytes(P.chk) \o HexText(h)
      [] P.enc = "XMR" -> LET x == P.pre \o h IN XmrText(x \o Chk4("keccak256", x), P.alpha)
      [] P.enc \in {"eos", "aeternity"} -> P.pre \o B58Check(h, P.chk, P.alpha)
AddrText(P, x) == Text(P, PayloadOf(P, x))

(* The value decoding gives back for an encoded payload *)
Decoded(P, h) == IF P.enc = "eip55" THEN Drop(h, 12) ELSE h

Affixed(P, b) ==       \* {} or {payload between prefix and suffix}
    LET a == Len(P.pre)
        z == Len(P.suf)
    IN IF Len(b) = a + P.len + z /\ Take(b, a) = P.pre /\ Drop(b, a + P.len) = P.suf
       THEN {SubSeq(b, a + 1, a + P.len)} ELSE {}

StartsWith(t, p) == Len(t) >= Len(p) /\ Take(t, Len(p)) = p
LowerT(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
OneCase(t) == ~((\E i \in 1..Len(t) : t[i] \in 65..90) /\ (\E i \in 1..Len(t) : t[i] \in 97..122))

AddrParse(P, t) ==
    CASE P.enc = "base58" -> UNION {Affixed(P, b) : b \in B58Payload(t, P.chk, P.alpha)}
      [] P.enc = "bech32" ->
            LET v == Len(P.pre) IN
            UNION { IF Take(d, v) = P.pre THEN {b \in UnFive(Drop(d, v)) : Len(b) \in Lens(P)} ELSE {}
                    : d \in Bech32Data(P.chk, t, Bech32Const) }
      [] P.enc = "bech32m" ->
            IF ~OneCase(t) THEN {}
            ELSE UNION { {b \in UnFive(d) : Len(b) = P.len} : d \in Bech32Data(P.chk, LowerT(t), Bech32mConst) }
      [] P.enc = "base32PolyMod" -> CashParse(P.chk, t)
      [] P.enc = "eip55" -> LET u == IF StartsWith(t, <<48, 120>>) THEN Drop(t, 2) ELSE t
                            IN IF Len(u) = 40 /\ IsHexText(u) THEN {UnHexText(u)} ELSE {}
      [] P.enc = "ICX" -> IF Len(t) = 42 /\ Take(t, 2) = <<104, 120>> /\ IsHexText(Drop(t, 2)) THEN {UnHexText(Drop(t, 2))} ELSE {}
      [] P.enc = "XMR" ->
            LET n == (P.len + 5) \div 8 IN
            IF Len(t) # 11 * n + 7 \/ ~InAlpha(t, P.alpha) THEN {}
            ELSE UNION { IF Chk4("keccak256", Take(b, Len(b) - 4)) = Drop(b, Len(b) - 4)
                         THEN Affixed(P, Take(b, Len(b) - 4)) ELSE {} : b \in XmrBytes(t, P.alpha) }
      [] P.enc = "eos" ->
            LET ps == {p \in {StrBytes("EOS"), StrBytes("PUB_K1_"), StrBytes("PUB_R1_")} : StartsWith(t, p)}
            IN UNION { {b \in B58Payload(Drop(t, Len(p)), P.chk, P.alpha) : Len(b) = P.len} : p \in ps }
      [] P.enc = "aeternity" ->
            IF ~StartsWith(t, P.pre) THEN {}
            ELSE {b \in B58Payload(Drop(t, Len(P.pre)), P.chk, P.alpha) : Len(b) = P.len}

------------------------------------------------------------------------------
(* Validity checks per coin: the kinds of address each accepts               *)
CheckKinds ==
  [ BTC |-> {"BTC_mainnetAddressP2PKH", "BTC_mainnetAddressP2SH", "BTC_mainnetAddressBech32V0",
             "BTC_testnetAddressP2PKH", "BTC_testnetAddressP2SH", "BTC_testnetAddressBech32V0"},
    ZEC |-> {"ZEC_mainnet_t_AddressP2PKH", "ZEC_mainnet_t_AddressP2SH", "ZEC_testnet_t_AddressP2PKH", "ZEC_testnet_t_AddressP2SH"},
    LTC |-> {"LTC_mainnetAddressP2PKH", "LTC_mainnetAddressP2SH", "LTC_mainnetAddressP2SH2", "LTC_mainnetAddressBech32V0",
             "LTC_testnetAddressP2PKH", "LTC_testnetAddressP2SH", "LTC_testnetAddressBech32V0"},
    BCH |-> {"BCH_mainnetAddressLegacy", "BCH_mainnetAddressCash"},
    XTZ |-> {"XTZ_mainnetAddress_tz1", "XTZ_mainnetAddress_tz2", "XTZ_mainnetAddress_tz3"},
    HC  |-> {"HC_mainnetPublicAddress"},
    ETH |-> {"ETH_mainnetPublicAddress"},
    QTUM |-> {"QTUM_mainnetAddressP2PKH", "QTUM_mainnetAddressP2SH", "QTUM_testnetAddressP2PKH", "QTUM_testnetAddressP2SH"},
    DCRD |-> {"DCRD_mainnetAddressP2PKH", "DCRD_mainnetAddressP2PK", "DCRD_mainnetAddressPKHEdwards", "DCRD_mainnetAddressPKHSchnorr",
              "DCRD_mainnetAddressP2SH", "DCRD_mainnetAddressPrivate",
              "DCRD_testnetAddressP2PKH", "DCRD_testnetAddressP2PK", "DCRD_testnetAddressPKHEdwards", "DCRD_testnetAddressP2PKHSchnorr",
              "DCRD_testnetAddressP2SH", "DCRD_testnetAddressPrivate",
              "DCRD_simnetAddressP2PKH", "DCRD_simnetAddressP2PK", "DCRD_simnetAddressPKHEdwards", "DCRD_simnetAddressPKHSchnorr",
              "DCRD_simnetAddressP2SH"},
    NAS |-> {"NAS_AccountAddress", "NAS_SmartContractAddress"},
    TRX |-> {"TRON_mainnetAddress"},
    ICX |-> {"ICX_walletAddress"},
    VSYS |-> {"VSYS_mainnetAddress"} ]
CheckSymbols == DOMAIN CheckKinds
CheckOK(sym, t) == sym \notin CheckSymbols \/ \E n \in CheckKinds[sym] : AddrParse(Profile[n], t) # {}
=============================================================================
