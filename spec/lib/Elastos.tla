------------------------------ MODULE Elastos ------------------------------
(* Elastos transfers and FIII transactions.                                  *)
EXTENDS Forks

ElaProgram(t) == {b \in B58Payload(t, "doubleSHA256", B58) : Len(b) = 21 /\ b[1] = 33}
ElaIn(x) == {Rev(t) \o LE(HexBytes(x.vout), 2) \o FkSeq : t \in HexOfLen(x.txid, 32)}
ElaOut(x) == {Rev(a) \o LE(HexBytes(x.amt), 8) \o Zeros(4) \o p : a \in HexOfLen(x.asset, 32), p \in ElaProgram(HexBytes(x.to))}
Firsts(s) == [j \in 1..Len(s) |-> j] \* positions
Owners(q) == LET k == SelectSeq(Firsts(q.ins), LAMBDA j : \A m \in 1..(j - 1) : q.ins[m].from # q.ins[j].from)
             IN [j \in 1..Len(k) |-> q.ins[k[j]].from]
ElaCreate(q) ==
    LET ins == AllOf([j \in 1..Len(q.ins) |-> ElaIn(q.ins[j])])
        outs == AllOf([j \in 1..Len(q.outs) |-> ElaOut(q.outs[j])])
    IN IF Len(q.ins) = 0 \/ Len(q.outs) = 0 \/ ins = {} \/ outs = {} THEN {}
       ELSE LET b == <<2, 0, 0>> \o UvarInt(Len(q.ins)) \o Cat(One(ins)) \o UvarInt(Len(q.outs)) \o Cat(One(outs)) \o Zeros(4)
                w == Owners(q)
            IN {[tx |-> ToHex(b), who |-> w, msgs |-> [j \in 1..Len(w) |-> ToHex(SHA256(b))]]}
ElaOne(s, dig) ==
    LET g == HexOfLen(s.sig, 64)
        p == HexOfLen(s.pub, 33)
    IN IF g = {} \/ p = {} THEN "no" ELSE IF EcdsaOK("r1", One(p), dig, One(g)) THEN "yes" ELSE "no"
(* the transaction does not say how many owners its inputs have *)
ElaCombine(e, made) ==
    LET b == HexOf(e.tx)
        n == Len(e.sp)
    IN IF b = {} \/ n = 0 THEN FkNo
       ELSE IF FkWorst([k \in 1..n |-> ElaOne(e.sp[k], SHA256(One(b)))]) = "no" THEN FkNo
       ELSE [v |-> IF \E m \in made : m.tx = e.tx /\ Len(Owners(m.q)) = n THEN "yes" ELSE "open",
             out |-> ToHex(One(b) \o UvarInt(n) \o Cat([k \in 1..n |-> <<65, 64>> \o HexBytes(e.sp[k].sig) \o <<35, 33>> \o HexBytes(e.sp[k].pub) \o <<172>>]))]

----------------------------------------------------------------------------
(* FIII: the unsigned and the signed transaction are JSON; an input's owner  *)
(* signs only the reference it spends                                        *)
DQ(s) == CatStr(<<"\"", s, "\"">>)
FiiiIn(x) == CatStr(<<"{\"OutputTransactionHash\":", DQ(x.txid), ",\"OutputIndex\":", x.vout, ",\"Size\":", x.size, ",\"UnlockScript\":", DQ(x.unlock), "}">>)
FiiiOut(x) == CatStr(<<"{\"Index\":", x.index, ",\"Amount\":", x.amt, ",\"Size\":", x.size, ",\"LockScript\":", DQ(x.lock), "}">>)
FiiiJson(m) ==
    CatStr(<<"{\"Version\":", m.version, ",\"Hash\":", DQ(m.hash), ",\"Timestamp\":", m.time, ",\"Locktime\":", m.locktime,
             ",\"ExpiredTime\":", m.expired, ",\"InputCount\":", m.nin, ",\"OutputCount\":", m.nout,
             ",\"Inputs\":", JList(Map(FiiiIn, m.ins)), ",\"Outputs\":", JList(Map(FiiiOut, m.outs)), ",\"Size\":", m.size, "}">>)
(* reading a text of exactly this form: {} otherwise *)
FiiiVal(p) == LET c == {k \in 1..Len(p) : p[k] = 58}
                  v == IF c = {} THEN <<>> ELSE Drop(p, CHOOSE k \in c : \A j \in c : j <= k)
              IN BytesStr(SelectSeq(v, LAMBDA x : x \notin {34, 93, 125}))
FiiiRead(t) ==
    LET ps == Split(StrBytes(t), 44)
        key == StrBytes("\"OutputIndex\":")
        nin == Cardinality({k \in 1..Len(ps) : StartsWith(ps[k], key)})
        nout == (Len(ps) - 8 - 4 * nin) \div 4
        V(k) == FiiiVal(ps[k])
    IN IF Len(ps) < 8 \/ nout < 0 \/ Len(ps) # 8 + 4 * (nin + nout) THEN {}
       ELSE LET m == [version |-> V(1), hash |-> V(2), time |-> V(3), locktime |-> V(4), expired |-> V(5), nin |-> V(6), nout |-> V(7),
                      ins |-> [j \in 1..nin |-> LET o == 7 + 4 * (j - 1) IN [txid |-> V(o + 1), vout |-> V(o + 2), size |-> V(o + 3), unlock |-> V(o + 4)]],
                      outs |-> [j \in 1..nout |-> LET o == 7 + 4 * nin + 4 * (j - 1) IN [index |-> V(o + 1), amt |-> V(o + 2), size |-> V(o + 3), lock |-> V(o + 4)]],
                      size |-> V(Len(ps))]
            IN IF FiiiJson(m) = t THEN {m} ELSE {}
(* decimal texts *)
Digital(b) == b # <<>> /\ (\A k \in 1..Len(b) : b[k] \in 48..57) /\ (Len(b) = 1 \/ b[1] # 48)
NegText(s) == LET b == StrBytes(s) IN b # <<>> /\ b[1] = 45
Magn(s) == IF NegText(s) THEN Drop(StrBytes(s), 1) ELSE StrBytes(s)
Pow2(bytes) == <<1>> \o Zeros(bytes)
IsNum64(s) == /\ Digital(Magn(s)) /\ Len(Magn(s)) <= 19
              /\ BigCmp(DecBytes(BytesStr(Magn(s))), IF NegText(s) THEN <<128>> \o Zeros(7) ELSE <<127>> \o Rep(255, 7)) <= 0
TwosC(s, n) == LET x == DecBytes(BytesStr(Magn(s))) IN IF NegText(s) /\ Strip(x) # <<>> THEN BE(BigSub(Pow2(8), x), n) ELSE BE(x, n)
U32Text(s) == IsNum64(s) /\ ~NegText(s) /\ Fits(DecBytes(s), 4)
FiiiNums(m) ==
    /\ \A s \in {m.version, m.time, m.locktime, m.expired, m.nin, m.nout, m.size} : IsNum64(s)
    /\ \A j \in 1..Len(m.ins) : IsNum64(m.ins[j].vout) /\ IsNum64(m.ins[j].size)
    /\ \A j \in 1..Len(m.outs) : IsNum64(m.outs[j].index) /\ IsNum64(m.outs[j].amt) /\ IsNum64(m.outs[j].size)
MinusZero(m) ==
    \/ \E s \in {m.version, m.time, m.locktime, m.expired, m.nin, m.nout, m.size} : s = "-0"
    \/ \E j \in 1..Len(m.ins) : m.ins[j].vout = "-0" \/ m.ins[j].size = "-0"
    \/ \E j \in 1..Len(m.outs) : m.outs[j].index = "-0" \/ m.outs[j].amt = "-0" \/ m.outs[j].size = "-0"
FiiiBytes(m) ==
    TwosC(m.time, 8) \o TwosC(m.locktime, 8) \o TwosC(m.expired, 8)
    \o IntBE(Len(m.ins), 4) \o Cat([j \in 1..Len(m.ins) |-> LET x == m.ins[j] IN HexBytes(x.txid) \o TwosC(x.vout, 4) \o TwosC(x.size, 4) \o StrBytes(x.unlock)])
    \o IntBE(Len(m.outs), 4) \o Cat([j \in 1..Len(m.outs) |-> LET x == m.outs[j] IN TwosC(x.index, 4) \o TwosC(x.amt, 8) \o TwosC(x.size, 4) \o StrBytes(x.lock)])
FiiiMsg(x) == HexBytes(x.txid) \o TwosC(x.vout, 4)
FiiiHash(pre, t) ==         \* {} or {hash} of an address with the prefix
    {Drop(b, Len(pre)) : b \in {p \in B58Payload(t, "doubleSHA256", B58) : Len(p) = Len(pre) + 20 /\ Take(p, Len(pre)) = pre}}
FiiiLock(h) == CatStr(<<"OP_DUP OP_HASH160 ", Upper(ToHex(h)), " OP_EQUALVERIFY OP_CHECKSIG">>)
Dec(n) == DecStr(IntBE(n, 4))
FiiiCreate(q, e) ==
    LET seen == FiiiRead(e.tx)
        tm == IF seen = {} THEN "0" ELSE IF ~IsNum64(One(seen).time) THEN "0" ELSE One(seen).time
        time == IF InSpan(DecBytes(BytesStr(Magn(tm))), e, 1000) THEN tm ELSE "0"
        hs == AllOf([j \in 1..Len(q.outs) |-> FiiiHash(HexBytes(q.outs[j].pre), HexBytes(q.outs[j].to))])
    IN IF Len(q.ins) = 0 \/ Len(q.outs) = 0 \/ hs = {} \/ (\E j \in 1..Len(q.ins) : HexOfLen(q.ins[j].txid, 32) = {} \/ ~U32Text(q.ins[j].vout))
          \/ (\E j \in 1..Len(q.outs) : NegText(q.outs[j].amt) \/ q.outs[j].amt = "0") THEN {}
       ELSE {[tx |-> FiiiJson([version |-> q.version, hash |-> "", time |-> time, locktime |-> q.locktime, expired |-> q.expired,
                               nin |-> Dec(Len(q.ins)), nout |-> Dec(Len(q.outs)),
                               ins |-> [j \in 1..Len(q.ins) |-> [txid |-> q.ins[j].txid, vout |-> q.ins[j].vout, size |-> "0", unlock |-> ""]],
                               outs |-> [j \in 1..Len(q.outs) |-> [index |-> Dec(j - 1), amt |-> q.outs[j].amt, size |-> Dec(StrLen(FiiiLock(One(hs)[j]))), lock |-> FiiiLock(One(hs)[j])]],
                               size |-> "0"]),
              msgs |-> [j \in 1..Len(q.ins) |-> StrCat(q.ins[j].txid, ToHex(TwosC(q.ins[j].vout, 4)))]]}
FiiiOne(s, msg) ==
    LET g == HexOfLen(s.sig, 64)
        p == HexOfLen(s.pub, 32)
    IN IF g = {} \/ p = {} THEN "no" ELSE IF EdOK(One(p), msg, One(g)) THEN "yes" ELSE "no"
FiiiUnlock(s) == CatStr(<<Upper(s.sig), "[ALL] 302A300506032B6570032100", Upper(s.pub)>>)
FiiiCombine(e) ==
    LET r == FiiiRead(e.tx)
        n == Len(e.sp)
    IN IF r = {} THEN [v |-> IF n = 0 THEN "no" ELSE "open", out |-> "?"]     \* not a text of this form: only JSON decides
       ELSE LET m == One(r)
            IN IF ~FiiiNums(m) \/ n = 0 \/ n # Len(m.ins) \/ m.nin # Dec(n) \/ m.nout # Dec(Len(m.outs)) THEN FkNo
               ELSE IF \E j \in 1..n : HexOfLen(m.ins[j].txid, 32) = {} \/ ~U32Text(m.ins[j].vout) THEN FkNo
               ELSE IF FkWorst([j \in 1..n |-> FiiiOne(e.sp[j], FiiiMsg(m.ins[j]))]) = "no" THEN FkNo
               ELSE IF MinusZero(m) THEN [v |-> "open", out |-> "?"]
               ELSE LET c == [m EXCEPT !.ins = [j \in 1..n |-> [m.ins[j] EXCEPT !.unlock = FiiiUnlock(e.sp[j]), !.size = Dec(StrLen(FiiiUnlock(e.sp[j])))]]]
                        b == FiiiBytes(c)
                    IN [v |-> "yes", out |-> FiiiJson([c EXCEPT !.hash = Upper(ToHex(SHA256(b))), !.size = Dec(Len(b) + 36)])]
=============================================================================
