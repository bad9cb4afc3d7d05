-------------------------------- MODULE Moac --------------------------------
(* MOAC transfers: RLP lists of twelve strings                               *)
(*   nonce, system contract, gas price, gas limit, recipient, amount,        *)
(*   payload, sharding flag, via, chain | v, r, s                            *)
EXTENDS Addr

RlpStr(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE <<128 + Len(b)>> \o b      \* at most 55 bytes
RlpNum(b) == RlpStr(Strip(b))
RlpList(items) ==
    LET body == Cat(items)
        n == Strip(IntBE(Len(body), 4))
    IN (IF Len(body) < 56 THEN <<192 + Len(body)>> ELSE <<247 + Len(n)>> \o n) \o body
RECURSIVE RlpStrings(_)
RlpStrings(b) ==            \* {} or {the payloads of the strings b consists of}
    IF b = <<>> THEN {<<>>}
    ELSE LET n == IF b[1] < 128 THEN 0 ELSE b[1] - 128
             x == IF b[1] < 128 THEN <<b[1]>> ELSE At(b, 1, n)
         IN IF n > 55 \/ Len(b) < 1 + n \/ (n = 1 /\ x[1] < 128) THEN {}
            ELSE {<<x>> \o r : r \in RlpStrings(Drop(b, 1 + n))}
MoacParse(b) ==             \* {} or {the twelve payloads}
    IF b = <<>> THEN {}
    ELSE {it \in RlpStrings(Drop(b, IF b[1] > 247 THEN b[1] - 246 ELSE 1)) :
             Len(it) = 12 /\ RlpList([j \in 1..12 |-> RlpStr(it[j])]) = b}

MoacChain(test) == IF test THEN <<101>> ELSE <<99>>
MoacNumOK(n) == n.k = "int" /\ Len(Strip(HexBytes(n.v))) <= 32
MoacAddr(t) == IF Len(t) = 42 /\ Take(t, 2) = <<48, 120>> /\ IsHexText(Drop(t, 2)) THEN {UnHexText(Drop(t, 2))} ELSE {}
MoacCreate(q) ==
    LET to == MoacAddr(HexBytes(q.to))
    IN IF to = {} \/ ~MoacNumOK(q.amt) \/ ~MoacNumOK(q.limit) \/ ~MoacNumOK(q.price) THEN {}
       ELSE LET b == RlpList(<<RlpNum(HexBytes(q.nonce)), <<128>>, RlpNum(HexBytes(q.price.v)), RlpNum(HexBytes(q.limit.v)),
                               RlpStr(One(to)), RlpNum(HexBytes(q.amt.v)), <<128>>, <<128>>, <<128>>,
                               MoacChain(q.test), <<128>>, <<128>>>>)
            IN {[tx |-> ToHex(b), msgs |-> <<ToHex(KECCAK256(b))>>]}

MoacCombine(e) ==
    LET tb == HexOf(e.tx)
        sg == IF Len(e.sp) = 1 THEN HexOfLen(e.sp[1].sig, 65) ELSE {}
    IN IF tb = {} \/ sg = {} THEN [v |-> "no", out |-> ""]
       ELSE LET b == One(tb)
                g == One(sg)
                p == MoacParse(b)
            IN IF g[65] > 1 THEN [v |-> "no", out |-> ""]
               ELSE IF LET k == Recover("k1", KECCAK256(b), Take(g, 64), g[65])
                       IN k = <<>> \/ ToHex(k) # Lower(e.sp[1].pub) THEN [v |-> "no", out |-> ""]
               ELSE IF p = {} THEN [v |-> "open", out |-> "?"]
               ELSE IF One(p)[10] # MoacChain(e.x.test) THEN [v |-> "no", out |-> ""]
               ELSE IF One(p)[11] # <<>> \/ One(p)[12] # <<>> THEN [v |-> "open", out |-> "?"]
               ELSE [v |-> IF HighS(Take(g, 64)) THEN "open" ELSE "yes",
                     out |-> StrCat("0x", ToHex(RlpList([j \in 1..12 |->
                        IF j = 10 THEN RlpStr(<<g[65] + 35 + 2 * MoacChain(e.x.test)[1]>>)
                        ELSE IF j = 11 THEN RlpNum(Take(g, 32))
                        ELSE IF j = 12 THEN RlpNum(SubSeq(g, 33, 64)) ELSE RlpStr(One(p)[j])])))]
=============================================================================
