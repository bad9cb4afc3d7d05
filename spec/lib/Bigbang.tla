------------------------------ MODULE Bigbang ------------------------------
(* BigBang Core token transactions with public key addresses.               *)
EXTENDS Vsys

(* CRC-24Q: polynomial 1864CFB, initial value 0, most significant bit first *)
CrcBit(c) == LET d == 2 * c IN IF d >= 16777216 THEN (d ^^ 25578747) ELSE d
CrcByte(c, x) == FoldLeft(LAMBDA a, k : CrcBit(a), c ^^ (x * 65536), <<1, 2, 3, 4, 5, 6, 7, 8>>)
CRC24Q(b) == IntBE(FoldLeft(CrcByte, 0, b), 3)
BbcAlpha == "0123456789abcdefghjkmnpqrstvwxyz"
BbcAddr(t) ==               \* {} or {public key}
    IF Len(t) # 57 \/ t[1] # 49 \/ ~InAlpha(Tail(t), BbcAlpha) THEN {}
    ELSE LET b == Regroup(Digits(Tail(t), BbcAlpha), 5, 8)
         IN IF CRC24Q(Take(b, 32)) = Drop(b, 32) THEN {Take(b, 32)} ELSE {}

BbcMax == 252
BbcIn(x) == {Rev(b) \o <<x.vout>> : b \in HexOfLen(x.txid, 32)}
BbcCreate(q, e) ==
    LET to == BbcAddr(HexBytes(q.to))
        an == HexOfLen(q.anchor, 32)
        data == HexBytes(q.data)
        ins == AllOf([j \in 1..Len(q.ins) |-> BbcIn(q.ins[j])])
        h == HexOf(e.tx)
        seen == IF h = {} THEN Zeros(4) ELSE IF Len(One(h)) < 8 THEN Zeros(4) ELSE At(One(h), 4, 4)
        time == IF InSpan(Rev(seen), e, 1) THEN seen ELSE Zeros(4)
    IN IF to = {} \/ an = {} \/ ins = {} \/ Len(q.ins) = 0 \/ Len(q.ins) > BbcMax \/ Len(data) > BbcMax
          \/ Strip(HexBytes(q.amt)) = <<>> \/ Strip(HexBytes(q.fee)) = <<>> THEN {}
       ELSE LET b == <<1, 0, 0, 0>> \o time \o LE(HexBytes(q.lock), 4) \o Rev(One(an)) \o <<Len(q.ins)>> \o Cat(One(ins))
                     \o <<1>> \o One(to) \o LE(HexBytes(q.amt), 8) \o LE(HexBytes(q.fee), 8) \o <<Len(data)>> \o data
            IN {[tx |-> ToHex(b), msgs |-> <<ToHex(BLAKE2B(b, 32))>>]}
BbcCombine(e) ==
    LET tb == HexOf(e.tx)
        one == Len(e.sp) = 1
        sg == IF one THEN HexOfLen(e.sp[1].sig, 64) ELSE {}
        pk == IF one THEN HexOfLen(e.sp[1].pub, 32) ELSE {}
    IN IF tb = {} \/ sg = {} \/ pk = {} THEN [v |-> "no", out |-> ""]
       ELSE IF ~EdOK(One(pk), BLAKE2B(One(tb), 32), One(sg)) THEN [v |-> "no", out |-> ""]
       ELSE [v |-> "yes", out |-> ToHex(One(tb) \o <<64>> \o One(sg))]
=============================================================================
