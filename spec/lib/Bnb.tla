--------------------------------- MODULE Bnb ---------------------------------
(* Binance Chain transfers: canonical JSON sign document, amino-encoded      *)
(* transaction.                                                              *)
EXTENDS Cosmos

BnbChain == "Binance-Chain-Tigris"
Has(t, lo, hi) == \E j \in 1..Len(t) : t[j] \in lo..hi
BnbAddr(t) ==               \* {} or {account}; entirely upper case is allowed
    IF Has(t, 65, 90) /\ Has(t, 97, 122) THEN {}
    ELSE LET u == [j \in 1..Len(t) |-> IF t[j] \in 65..90 THEN t[j] + 32 ELSE t[j]]
         IN {b \in UNION {UnFive(d) : d \in Bech32Data("bnb", u, Bech32Const)} : Len(b) = 20}
BnbText(b) == BytesStr(Bech32("bnb", Regroup(b, 8, 5), Bech32Const))
BnbCoin(q) == CatStr(<<"[{\"amount\":", DecStr(HexBytes(q.amt)), ",\"denom\":", JsonStr(q.denom), "}]">>)
BnbParty(a, q) == CatStr(<<"[{\"address\":\"", BnbText(a), "\",\"coins\":", BnbCoin(q), "}]">>)
BnbDoc(q, from, to) ==
    CatStr(<<"{\"account_number\":", JNumStr(q.acct), ",\"chain_id\":\"", BnbChain, "\",\"data\":null,\"memo\":", JsonStr(q.memo),
             ",\"msgs\":[{\"inputs\":", BnbParty(from, q), ",\"outputs\":", BnbParty(to, q), "}],\"sequence\":", JNumStr(q.seq),
             ",\"source\":", JNumStr(q.source), "}">>)
BnbCreate(q) ==
    LET f == BnbAddr(HexBytes(q.from))
        t == BnbAddr(HexBytes(q.to))
    IN IF f = {} \/ t = {} THEN {}
       ELSE LET d == BnbDoc(q, One(f), One(t)) IN {[tx |-> d, msgs |-> <<ToHex(SHA256(StrBytes(d)))>>]}
(* the document states the amount as a double: from 2^53 on it may be refused *)
BnbMay(q) == BigCmp(HexBytes(q.amt), HexBytes("20000000000000")) > 0

(* amino: protobuf-like fields, zero values omitted *)
AmBytes(n, b) == IF b = <<>> THEN <<>> ELSE <<8 * n + 2>> \o UvarInt(Len(b)) \o b
AmNum(n, h) == IF IsZero(h) THEN <<>> ELSE <<8 * n>> \o UvarBig(HexBytes(h))
BnbReleased(q, sig, pub) ==
    LET coin == AmBytes(1, StrBytes(q.denom)) \o AmNum(2, q.amt)
        party(a) == AmBytes(1, a) \o <<18>> \o UvarInt(Len(coin)) \o coin
        msg == HexBytes("2a2c87fa") \o AmBytes(1, party(One(BnbAddr(HexBytes(q.from))))) \o AmBytes(2, party(One(BnbAddr(HexBytes(q.to)))))
        s == AmBytes(1, HexBytes("eb5ae98721") \o pub) \o AmBytes(2, sig) \o AmNum(3, q.acct) \o AmNum(4, q.seq)
        body == HexBytes("f0625dee") \o AmBytes(1, msg) \o AmBytes(2, s) \o AmBytes(3, StrBytes(q.memo)) \o AmNum(4, q.source)
    IN ToHex(UvarInt(Len(body)) \o body)
BnbCombine(e, made) ==
    LET one == Len(e.sp) = 1
        sg == IF one THEN HexOfLen(e.sp[1].sig, 64) ELSE {}
        pk == IF one THEN HexOfLen(e.sp[1].pub, 33) ELSE {}
        no == [v |-> "no", out |-> ""]
        Valid(m) == EcdsaOK("k1", One(pk), SHA256(StrBytes(m.tx)), One(sg))
        its == {m \in made : m.tx = e.tx}
    IN IF sg = {} \/ pk = {} THEN no
       ELSE IF its # {} THEN LET m == CHOOSE m \in its : TRUE
                             IN IF Valid(m) THEN [v |-> IF HighS(One(sg)) THEN "open" ELSE "yes", out |-> BnbReleased(m.q, One(sg), One(pk))] ELSE no
       ELSE IF \E m \in made : Valid(m) /\ e.out = BnbReleased(m.q, One(sg), One(pk)) THEN [v |-> "open", out |-> e.out]
       ELSE no
=============================================================================
