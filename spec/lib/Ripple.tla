------------------------------- MODULE Ripple -------------------------------
(* Ripple payments of native currency; the unsigned text has an "s" where    *)
(* the signature field goes.                                                 *)
EXTENDS Addr

XrpVL(b) ==                 \* variable length prefix and bytes
    LET n == Len(b) IN
    (IF n <= 192 THEN <<n>>
     ELSE IF n <= 12480 THEN <<193 + ((n - 193) \div 256), (n - 193) % 256>>
     ELSE <<241 + ((n - 12481) \div 65536), ((n - 12481) \div 256) % 256, (n - 12481) % 256>>) \o b
XrpMaxVL == 918744
XrpAmountOK(b) == Strip(b) # <<>> /\ BE(b, 8)[1] < 64
XrpAmount(b) == LET x == BE(b, 8) IN <<64 + x[1]>> \o Tail(x)
XrpAccount(t) == {Drop(b, 1) : b \in {y \in B58Payload(t, "doubleSHA256", XRP58) : Len(y) = 21 /\ y[1] = 0}}
XrpKey(s) == {b \in HexOfLen(s, 33) : b[1] \in {2, 3}}
XrpMemo(ty, da, fo) ==
    IF da = <<>> THEN <<>>
    ELSE <<249, 234>> \o (IF ty = <<>> THEN <<>> ELSE <<124>> \o XrpVL(ty)) \o <<125>> \o XrpVL(da)
         \o (IF fo = <<>> THEN <<>> ELSE <<126>> \o XrpVL(fo)) \o <<225, 241>>

XrpCreate(q) ==
    LET from == XrpAccount(HexBytes(q.from))
        to == XrpAccount(HexBytes(q.to))
        key == XrpKey(q.pub)
        ty == HexBytes(q.mtype)
        da == HexBytes(q.mdata)
        fo == HexBytes(q.mfmt)
    IN IF from = {} \/ to = {} \/ key = {} \/ ~XrpAmountOK(HexBytes(q.amt)) \/ ~XrpAmountOK(HexBytes(q.fee))
          \/ q.tag.k = "big" \/ Len(ty) > XrpMaxVL \/ Len(da) > XrpMaxVL \/ Len(fo) > XrpMaxVL THEN {}
       ELSE LET a == HexBytes("1200002280000000") \o <<36>> \o BE(HexBytes(q.seq), 4)
                     \o (IF q.tag.k = "none" THEN <<>> ELSE <<46>> \o BE(HexBytes(q.tag.v), 4))
                     \o <<32, 27>> \o BE(HexBytes(q.lls), 4)
                     \o <<97>> \o XrpAmount(HexBytes(q.amt)) \o <<104>> \o XrpAmount(HexBytes(q.fee))
                     \o <<115, 33>> \o One(key)
                z == <<129, 20>> \o One(from) \o <<131, 20>> \o One(to) \o XrpMemo(ty, da, fo)
            IN {[tx |-> CatStr(<<ToHex(a), "s", ToHex(z)>>),
                 msgs |-> <<ToHex(SHA512Half(StrBytes("STX") \o <<0>> \o a \o z))>>]}

SplitAt(t, c) == [n |-> Cardinality({j \in 1..Len(t) : t[j] = c}), k |-> LET p == {j \in 1..Len(t) : t[j] = c} IN IF p = {} THEN 0 ELSE CHOOSE j \in p : TRUE]
XrpCombine(e) ==
    LET t == StrBytes(e.tx)
        cut == SplitAt(t, 115)
        no == [v |-> "no", out |-> ""]
    IN IF cut.n # 1 \/ Len(e.sp) # 1 THEN no
       ELSE LET hd == BytesStr(Take(t, cut.k - 1))
                tl == BytesStr(Drop(t, cut.k))
                key == HexOfLen(e.sp[1].pub, 33)
                sg == HexOfLen(e.sp[1].sig, 64)
            IN IF ~IsHex(hd) \/ ~IsHex(tl) \/ key = {} \/ sg = {} THEN no
               ELSE LET a == HexBytes(hd)
                        z == HexBytes(tl)
                    IN IF Len(a) < 35 \/ Drop(a, Len(a) - 35) # <<115, 33>> \o One(key) THEN no
                       ELSE IF ~EcdsaOK("k1", One(key), SHA512Half(StrBytes("STX") \o <<0>> \o a \o z), One(sg)) THEN no
                       ELSE [v |-> IF HighS(One(sg)) THEN "open" ELSE "yes",
                             out |-> CatStr(<<hd, ToHex(<<116>> \o XrpVL(Der(One(sg)))), tl>>)]
=============================================================================
