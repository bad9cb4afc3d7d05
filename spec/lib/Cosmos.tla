------------------------------- MODULE Cosmos -------------------------------
(* Cosmos and Evaio transfers: the sign document is canonical JSON (keys in  *)
(* order, no white space), hashed with SHA-256; the broadcast form carries   *)
(* the same content with signature and key in Base64.                        *)
EXTENDS Addr

B64Alpha == StrBytes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
Base64(b) ==
    LET d == Regroup(b, 8, 6)
    IN BytesStr([j \in 1..Len(d) |-> B64Alpha[d[j] + 1]] \o Rep(61, (3 - (Len(b) % 3)) % 3))
IsZero(h) == Strip(HexBytes(h)) = <<>>
JNumStr(h) == CatStr(<<"\"", DecStr(HexBytes(h)), "\"">>)
CosCoin(c) == CatStr(<<"{\"amount\":", JNumStr(c.amt), ",\"denom\":", JsonStr(c.denom), "}">>)
CosCoins(cs) == JList(Map(CosCoin, cs))
NonZero(cs) == SelectSeq(cs, LAMBDA c : ~IsZero(c.amt))
CosFee(q) == CatStr(<<"{\"amount\":", CosCoins(NonZero(q.fee)), ",\"gas\":", JNumStr(q.gas), "}">>)
CosMsg(m) == CatStr(<<"{\"type\":", JsonStr(m.type), ",\"value\":{\"amount\":", CosCoins(m.coins), ",\"from_address\":", JsonStr(m.from),
                      ",\"to_address\":", JsonStr(m.to), "}}">>)
CosMsgs(q) == JList(Map(CosMsg, q.msgs))
CosDoc(q) ==
    CatStr(<<"{\"account_number\":", JNumStr(q.acct), ",\"chain_id\":", JsonStr(q.chain), ",\"fee\":", CosFee(q),
             ",\"memo\":", JsonStr(q.memo), ",\"msgs\":", CosMsgs(q), ",\"sequence\":", JNumStr(q.seq), "}">>)
CosCreate(q) ==
    IF \E j \in 1..Len(q.msgs) : \E k \in 1..Len(q.msgs[j].coins) : IsZero(q.msgs[j].coins[k].amt) THEN {}
    ELSE LET d == CosDoc(q) IN {[tx |-> d, msgs |-> <<ToHex(SHA256(StrBytes(d)))>>]}

CosSend(q, sig, pub, eva) ==
    LET tx == CatStr(<<"{\"msg\":", CosMsgs(q), ",\"fee\":", CosFee(q), ",\"memo\":", JsonStr(q.memo),
                       ",\"signatures\":[{\"signature\":\"", Base64(sig), "\",\"pub_key\":{\"type\":", JsonStr(q.ktype), ",\"value\":\"", Base64(pub), "\"}",
                       IF eva THEN "" ELSE CatStr(<<",\"account_number\":", JNumStr(q.acct), ",\"sequence\":", JNumStr(q.seq)>>), "}]}">>)
        mode == CatStr(<<"\"mode\":", JsonStr(q.mode)>>)
    IN IF eva THEN CatStr(<<"{", mode, ",\"tx\":", tx, "}">>) ELSE CatStr(<<"{\"tx\":", tx, ",", mode, "}">>)
(* the key is presented as its two coordinates; e.x is the request being sent *)
CosCombine(e, eva) ==
    LET one == Len(e.sp) = 1
        sg == IF one THEN HexOfLen(e.sp[1].sig, 64) ELSE {}
        pk == IF one THEN HexOfLen(e.sp[1].pub, 64) ELSE {}
    IN IF sg = {} \/ pk = {} THEN [v |-> "no", out |-> ""]
       ELSE IF ~EcdsaOK("k1", One(pk), SHA256(StrBytes(e.tx)), One(sg)) THEN [v |-> "no", out |-> ""]
       ELSE [v |-> IF HighS(One(sg)) THEN "open" ELSE "yes",
             out |-> CosSend(e.x, One(sg), <<2 + (One(pk)[64] % 2)>> \o Take(One(pk), 32), eva)]
=============================================================================
