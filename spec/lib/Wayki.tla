------------------------------- MODULE Wayki -------------------------------
(* WaykiChain transactions (registration, transfer, contract call, coin      *)
(* transfer) and Ontology native transfers.                                  *)
EXTENDS Elastos

(* base 128, most significant first, each continued digit less one *)
RECURSIVE WkMore(_)
WkShift(b) == LET d == Convert(Strip(b), 256, 128) IN Convert(Take(d, Len(d) - 1), 128, 256)
WkLow(b) == LET d == Convert(Strip(b), 256, 128) IN d[Len(d)]
WkMore(b) == IF Strip(b) = <<>> THEN <<128>>
             ELSE (IF BigCmp(b, <<127>>) > 0 THEN WkMore(BigSub(WkShift(b), <<1>>)) ELSE <<>>) \o <<128 + WkLow(b)>>
WkNum(b) == IF Strip(b) = <<>> THEN <<0>>
            ELSE (IF BigCmp(b, <<127>>) > 0 THEN WkMore(BigSub(WkShift(b), <<1>>)) ELSE <<>>) \o <<WkLow(b)>>
WkInt(s) == WkNum(DecBytes(s))                  \* of a decimal text
Space(x) == x \in {9, 10, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(b) == IF b # <<>> /\ Space(b[1]) THEN TrimL(Tail(b)) ELSE b
Trim(b) == Rev(TrimL(Rev(TrimL(b))))
WkDigits(b) == b # <<>> /\ \A k \in 1..Len(b) : b[k] \in 48..57
Max63 == <<127>> \o Rep(255, 7)
WkReg(t) ==             \* "height-index", t a byte text
    LET ps == Split(Trim(t), 45)
    IN IF Len(ps) # 2 \/ \E k \in 1..Len(ps) : ~WkDigits(ps[k]) THEN {}
       ELSE LET v == [k \in 1..2 |-> DecBytes(BytesStr(ps[k]))]
            IN IF \E k \in 1..2 : BigCmp(v[k], Max63) > 0 THEN {}
               ELSE LET b == WkNum(v[1]) \o WkNum(v[2]) IN {<<Len(b)>> \o b}
WkTo(t) == {<<20>> \o Drop(b, 1) : b \in {p \in B58Payload(t, "doubleSHA256", B58) : Len(p) = 21 /\ p[1] \in {73, 135}}}
WkBody(q) ==            \* what follows type, version and height: {} if the request cannot be represented
    LET from == HexBytes(q.from)
        to == HexBytes(q.to)
        app == HexBytes(q.app)
        fee == WkInt(q.fee)
        amt == WkInt(q.amt)
    IN CASE q.type = 2 -> {<<33>> \o k \o <<0>> \o fee : k \in HexOfLen(BytesStr(from), 33)}
         [] q.type = 3 -> {r \o d \o fee \o amt \o <<0>> : r \in WkReg(from), d \in WkTo(to)}
         [] q.type = 4 -> {r \o a \o fee \o amt \o VarBytes(c) : r \in WkReg(from), a \in WkReg(app), c \in HexOf(BytesStr(to))}
         [] q.type = 11 -> {r \o <<4>> \o StrBytes("WICC") \o fee \o <<1>> \o d \o VarBytes(app) \o amt \o <<0>> :
                               r \in WkReg(from), d \in WkTo(to), x \in IF app = <<>> THEN {} ELSE {1}}
         [] OTHER -> {}
WkSwap(b) == <<b[2], b[1]>> \o Drop(b, 2)
WkCreate(q) ==
    IF NegText(q.height) \/ NegText(q.fee) \/ (q.type # 2 /\ NegText(q.amt)) THEN {}
    ELSE {LET t == <<q.type, 1>> \o WkInt(q.height) \o b IN [tx |-> ToHex(t), msgs |-> <<ToHex(DSHA256(WkSwap(t)))>>] : b \in WkBody(q)}
(* a registration of bytes that are no point of the curve may be refused *)
WkMay(q) == q.type = 2 /\ \A k \in HexOfLen(BytesStr(HexBytes(q.from)), 33) : Decompress("k1", k) = <<>>
WkKey(b) ==             \* the key a registration names
    LET e == {k \in 3..Len(b) : b[k] < 128}
        j == IF e = {} THEN 0 ELSE CHOOSE k \in e : \A m \in e : k <= m
    IN IF j = 0 \/ Len(b) < j + 34 THEN {} ELSE IF b[j + 1] # 33 THEN {} ELSE {SubSeq(b, j + 2, j + 34)}
WkCombine(e) ==
    LET b == HexOf(e.tx)
    IN IF b = {} \/ Len(e.sp) # 1 THEN FkNo
       ELSE LET t == One(b)
                s == e.sp[1]
            IN IF Len(t) < 2 THEN FkNo
               ELSE IF t[1] \notin {2, 3, 4, 11} \/ t[2] # 1 THEN FkNo
               ELSE IF t[1] = 2 /\ HexOf(s.pub) # WkKey(t) THEN FkNo
               ELSE LET v == FkOne(s, DSHA256(WkSwap(t)))
                    IN IF v = "no" THEN FkNo
                       ELSE LET d == Der(HexBytes(s.sig)) IN [v |-> v, out |-> StrCat(e.tx, ToHex(<<Len(d)>> \o d))]

----------------------------------------------------------------------------
(* Ontology *)
OntAddr(t) == {Drop(b, 1) : b \in {p \in B58Payload(t, "doubleSHA256", B58) : Len(p) = 21 /\ p[1] = 23}}
OntLE(b) == LET s == Rev(Strip(b)) IN IF s # <<>> /\ s[Len(s)] >= 128 THEN s \o <<0>> ELSE s
OntPush(b) == LET s == OntLE(b)
                  n == Len(s)
              IN IF n = 0 THEN <<0>>
                 ELSE IF n = 1 /\ s[1] < 16 THEN <<80 + s[1]>>
                 ELSE (IF n < 75 THEN <<n>> ELSE IF n < 256 THEN <<76, n>> ELSE <<77>> \o IntLE(n, 2)) \o s
OntContract(n) == Zeros(19) \o <<n>>
OntStr(s) == <<StrLen(s)>> \o StrBytes(s)
OntPayload(q, from, to) ==
    LET item(b) == <<20>> \o b \o <<200, 106>>
        w == q.asset = 2
    IN <<0, 198, 107, 106>> \o item(from) \o (IF w THEN item(OntContract(1)) ELSE <<>>) \o item(to)
       \o OntPush(DecBytes(q.amt)) \o <<200, 108>> \o (IF w THEN <<>> ELSE <<81, 193>>)
       \o OntStr(IF w THEN "transferFrom" ELSE IF q.v2 THEN "transferV2" ELSE "transfer")
       \o <<20>> \o OntContract(IF q.asset = 0 THEN 1 ELSE 2) \o <<0, 104>> \o OntStr("Ontology.Native.Invoke")
OntDigest(body) == SHA256(DSHA256(body))
(* the nonce is random: it is read off the observed text *)
OntNonce(e) == IF IsHex(e.tx) THEN LET b == HexBytes(e.tx) IN IF Len(b) >= 6 THEN At(b, 2, 4) ELSE Zeros(4) ELSE Zeros(4)
OntCreate(q, e) ==
    LET p == IF q.payer = "" THEN q.from ELSE q.payer
        ok == q.asset \in 0..2 /\ q.amt # "nil" /\ ~NegText(q.amt)
    IN IF ~ok THEN {}
       ELSE UNION {{LET l == OntPayload(q, f, t)
                        b == <<0, 209>> \o OntNonce(e) \o LE(HexBytes(q.price), 8) \o LE(HexBytes(q.limit), 8) \o y \o <<Len(l)>> \o l \o <<0>>
                        w == IF p = q.from THEN <<p>> ELSE <<p, q.from>>
                    IN [tx |-> ToHex(b \o <<0>>), who |-> w, msgs |-> [j \in 1..Len(w) |-> ToHex(OntDigest(b))]] :
                      x \in IF Len(OntPayload(q, f, t)) < 253 THEN {1} ELSE {}} :
                   y \in OntAddr(HexBytes(p)), f \in OntAddr(HexBytes(q.from)), t \in OntAddr(HexBytes(q.to))}
(* reading: {} or the fields *)
OntSigLen == 102
RECURSIVE OntSigs(_, _)
OntSigs(b, n) == IF n = 0 THEN TRUE
                 ELSE /\ Take(b, 2) = <<65, 64>> /\ At(b, 66, 2) = <<35, 33>> /\ b[102] = 172 /\ OntSigs(Drop(b, 102), n - 1)
OntRead(b) ==
    IF Len(b) < 45 THEN {}
    ELSE IF b[1] # 0 \/ b[2] # 209 \/ b[43] \notin 1..252 \/ Len(b) < 45 + b[43] THEN {}
    ELSE LET p == b[43]
             n == b[45 + p]
         IN IF b[44 + p] # 0 \/ Len(b) # 45 + p + n * OntSigLen THEN {}
            ELSE IF ~OntSigs(Drop(b, 45 + p), n) THEN {}
            ELSE {[nonce |-> Rev(At(b, 2, 4)), price |-> Rev(At(b, 6, 8)), limit |-> Rev(At(b, 14, 8)), payer |-> At(b, 22, 20), payload |-> At(b, 43, p), n |-> n]}
OntShown(r) == [nonce |-> ToHex(r.nonce), price |-> ToHex(r.price), limit |-> ToHex(r.limit), payload |-> ToHex(r.payload),
                payer |-> BytesStr(B58Check(<<23>> \o r.payer, "doubleSHA256", B58))]
OntOne(s, dig) == LET v == ElaOne(s, dig) IN IF v = "yes" /\ HighR1(HexBytes(s.sig)) THEN "open" ELSE v
OntCombine(e, made) ==
    LET b == HexOf(e.tx)
        n == Len(e.sp)
    IN IF b = {} \/ n = 0 \/ n > 252 THEN FkNo
       ELSE LET r == OntRead(One(b))
                body == Take(One(b), Len(One(b)) - 1)
            IN IF r = {} THEN FkNo
               ELSE IF One(r).n # 0 THEN FkNo
               ELSE LET v == FkWorst([k \in 1..n |-> OntOne(e.sp[k], OntDigest(body))])
                    IN IF v = "no" THEN FkNo
                       ELSE [v |-> IF v = "yes" /\ \E m \in made : m.tx = e.tx /\ (n = 2) = (m.q.payer \notin {"", m.q.from}) /\ n <= 2 THEN "yes" ELSE "open",
                             out |-> ToHex(body \o <<n>> \o Cat([k \in 1..n |-> <<65, 64>> \o HexBytes(e.sp[k].sig) \o <<35, 33>> \o HexBytes(e.sp[k].pub) \o <<172>>]))]
=============================================================================
