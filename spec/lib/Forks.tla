------------------------------- MODULE Forks -------------------------------
(* Bitcoin forks with drivers of their own: Verge (xvg), Aliencoin (ali),    *)
(* Vollar (vds), HyperCash (hyc) and Metaverse (etp).  Unsigned texts carry  *)
(* the lock script of every spent output behind the transaction.             *)
EXTENDS Vsys

FkMax == 252
FkVer == <<1, 0, 0, 0>>
FkSeq == <<255, 255, 255, 255>>
FkChk(d) == IF d = "hyc" THEN "doubleBlake256" ELSE "doubleSHA256"
FkPkh(d) == HexBytes(CASE d = "xvg" -> "1e" [] d = "ali" -> "17" [] d = "vds" -> "101c" [] d = "hyc" -> "097f")
FkSh(d) == HexBytes(CASE d = "xvg" -> "21" [] d = "ali" -> "30" [] d = "vds" -> "1041" [] d = "hyc" -> "")
FkPay(d, t) ==              \* {} or {lock script} of an address text
    LET p == B58Payload(t, FkChk(d), B58)
    IN UNION {LET n == Len(FkPkh(d)) IN
              IF Len(b) # n + 20 THEN {}
              ELSE IF Take(b, n) = FkPkh(d) THEN {P2PKHScript(Drop(b, n))}
              ELSE IF Take(b, n) = FkSh(d) THEN {P2SHScript(Drop(b, n))} ELSE {} : b \in p}
FkIn(x) == {[txid |-> Rev(t), vout |-> LE(HexBytes(x.vout), 4), lock |-> l, seq |-> FkSeq] :
            t \in HexOfLen(x.txid, 32), l \in {y \in HexOf(x.lock) : Len(y) <= FkMax}}
FkOut(d, x) == {LE(HexBytes(x.amt), 8) \o (CASE d = "vds" -> <<0>> [] d = "hyc" -> <<0, 0>> [] OTHER -> <<>>)
                \o VarBytes(s) \o (IF d = "vds" THEN Zeros(32) ELSE <<>>) : s \in FkPay(d, HexBytes(x.to))}
FkIns(q) == AllOf([j \in 1..Len(q.ins) |-> FkIn(q.ins[j])])
FkOuts(d, q) == AllOf([j \in 1..Len(q.outs) |-> FkOut(d, q.outs[j])])

(* t: [head, ins, outs (one byte string, with their count), tail] *)
FkBody(t, scripts) ==
    t.head \o CompactSize(Len(t.ins))
    \o Cat([j \in 1..Len(t.ins) |-> t.ins[j].txid \o t.ins[j].vout \o VarBytes(scripts[j]) \o t.ins[j].seq])
    \o t.outs \o t.tail
FkDigest(d, t, k) ==
    IF d = "vds"
    THEN LET i == t.ins[k] IN
         DSHA256(DSHA256(Cat([j \in 1..Len(t.ins) |-> t.ins[j].txid \o t.ins[j].vout]))
                 \o DSHA256(Cat([j \in 1..Len(t.ins) |-> t.ins[j].seq]))
                 \o DSHA256(Drop(t.outs, 1)) \o Zeros(64) \o Zeros(16) \o <<1, 0, 0, 0>>
                 \o i.txid \o i.vout \o VarBytes(i.lock) \o i.seq)
    ELSE DSHA256(FkBody(t, [j \in 1..Len(t.ins) |-> IF j = k THEN t.ins[j].lock ELSE <<>>]) \o <<1, 0, 0, 0>>)
FkNoScripts(t) == [j \in 1..Len(t.ins) |-> <<>>]
FkCreate(d, q, e) ==
    LET ins == FkIns(q)
        outs == FkOuts(d, q)
        h == Split(StrBytes(e.tx), 58)
        hb == IF IsHex(BytesStr(h[1])) THEN HexBytes(BytesStr(h[1])) ELSE <<>>
        seen == IF Len(hb) < 8 THEN Zeros(4) ELSE At(hb, 4, 4)
        since == IF d # "xvg" THEN <<>> ELSE IF BigCmp(Rev(seen), HexBytes(q.span)) < 0 THEN <<>> ELSE BigSub(Rev(seen), HexBytes(q.span))
        time == IF d # "xvg" THEN <<>> ELSE IF InSpan(since, e, 1) THEN seen ELSE Zeros(4)
        late == d = "xvg" /\ ~Fits(BigAdd(IntBE(e.t1, 4), HexBytes(q.span)), 4)
    IN IF ins = {} \/ outs = {} \/ Len(q.ins) > FkMax \/ Len(q.outs) > FkMax \/ late \/ (d = "vds" /\ Len(q.ins) = 0) THEN {}
       ELSE LET t == [head |-> FkVer \o (IF d = "vds" THEN <<0>> ELSE time), ins |-> One(ins),
                      outs |-> <<Len(q.outs)>> \o Cat(One(outs)), tail |-> IF d = "vds" THEN <<>> ELSE LE(HexBytes(q.lock), 4)]
            IN {[tx |-> StrCat(ToHex(FkBody(t, FkNoScripts(t))), CatStr([j \in 1..Len(q.ins) |-> StrCat(":", q.ins[j].lock)])),
                 msgs |-> [k \in 1..Len(q.ins) |-> ToHex(FkDigest(d, t, k))]]}

(* reading the unsigned text back *)
FkRdIn(b, i) ==
    LET z == RdN(b, i + 36, 1)
        s == RdN(b, z.i, 4)
    IN IF ~z.ok \/ ~s.ok \/ z.v # <<0>> THEN Bad
       ELSE [ok |-> TRUE, i |-> s.i, v |-> [txid |-> At(b, i, 32), vout |-> At(b, i + 32, 4), seq |-> s.v]]
FkRdLen(b, i) == LET c == RdCount(b, i) IN IF c.ok /\ c.v <= FkMax THEN c ELSE Bad
FkRdOut(d, b, i) ==
    LET o == IF d = "vds" THEN 9 ELSE 8
        n == FkRdLen(b, i + o)
        s == IF n.ok THEN RdN(b, n.i, n.v + (IF d = "vds" THEN 32 ELSE 0)) ELSE Bad
    IN IF ~s.ok THEN Bad ELSE [ok |-> TRUE, i |-> s.i, v |-> At(b, i, s.i - i)]
FkRead(d, txt) ==
    LET ps == Split(StrBytes(txt), 58)
        hx == [j \in 1..Len(ps) |-> HexOf(BytesStr(ps[j]))]
    IN IF Len(ps) < 2 \/ (\E j \in 1..Len(ps) : hx[j] = {}) THEN {}
       ELSE LET b == One(hx[1])
                hl == CASE d = "xvg" -> 8 [] d = "vds" -> 5 [] OTHER -> 4
                nin == FkRdLen(b, hl)
                ins == IF nin.ok THEN RdList(FkRdIn, b, nin.i, nin.v, <<>>) ELSE Bad
                nout == IF ins.ok THEN FkRdLen(b, ins.i) ELSE Bad
                Rd(x, i) == FkRdOut(d, x, i)
                outs == IF nout.ok THEN RdList(Rd, b, nout.i, nout.v, <<>>) ELSE Bad
            IN IF ~outs.ok \/ Len(b) - outs.i # (IF d = "vds" THEN 0 ELSE 4) THEN {}
               ELSE IF d = "vds" /\ Take(b, 5) # FkVer \o <<0>> THEN {}
               ELSE IF Len(ins.v) # Len(ps) - 1 \/ \E j \in 2..Len(ps) : Len(One(hx[j])) > FkMax THEN {}
               ELSE {[head |-> Take(b, hl), outs |-> At(b, ins.i, outs.i - ins.i), tail |-> Drop(b, outs.i),
                      ins |-> [j \in 1..Len(ins.v) |-> [lock |-> One(hx[j + 1])] @@ ins.v[j]]]}
FkWorst(vs) == IF \E k \in 1..Len(vs) : vs[k] = "no" THEN "no" ELSE IF \E k \in 1..Len(vs) : vs[k] = "open" THEN "open" ELSE "yes"
FkOne(s, dig) ==            \* verdict of one presented signature
    LET g == HexOfLen(s.sig, 64)
        p == HexOfLen(s.pub, 33)
    IN IF g = {} \/ p = {} THEN "no"
       ELSE IF ~EcdsaOK("k1", One(p), dig, One(g)) THEN "no" ELSE IF HighS(One(g)) THEN "open" ELSE "yes"
FkScript(s) == DerPush(HexBytes(s.sig), 1) \o <<33>> \o HexBytes(s.pub)
FkNo == [v |-> "no", out |-> ""]
FkCombine(d, e) ==
    LET ts == FkRead(d, e.tx)
    IN IF ts = {} THEN FkNo
       ELSE LET t == One(ts)
                n == Len(t.ins)
            IN IF Len(e.sp) # n \/ n = 0 THEN FkNo
               ELSE LET v == FkWorst([k \in 1..n |-> FkOne(e.sp[k], FkDigest(d, t, k))])
                    IN IF v = "no" THEN FkNo
                       ELSE [v |-> v, out |-> ToHex(FkBody(t, [k \in 1..n |-> FkScript(e.sp[k])]) \o (IF d = "vds" THEN Zeros(82 + n) ELSE <<>>))]

----------------------------------------------------------------------------
(* HyperCash: prefix and witness are hashed apart                            *)
HycFraud(x) == LE(HexBytes(x.amt), 8) \o LE(HexBytes(x.height), 4) \o LE(HexBytes(x.index), 4)
HycPrefix(ser, ins, outs, q) ==
    <<1, 0>> \o ser \o CompactSize(Len(ins)) \o Cat([j \in 1..Len(ins) |-> ins[j].txid \o ins[j].vout \o <<0>> \o ins[j].seq])
    \o CompactSize(Len(outs)) \o Cat(outs) \o LE(HexBytes(q.lock), 4) \o LE(HexBytes(q.expiry), 4)
HycWitness(locks, k) == <<1, 0, 3, 0>> \o CompactSize(Len(locks)) \o Cat([j \in 1..Len(locks) |-> IF j = k THEN locks[j] ELSE <<0>>])
HycDigest(prefix, locks, k) == BLAKE256(<<1, 0, 0, 0>> \o BLAKE256(prefix) \o BLAKE256(HycWitness(locks, k)))
HycPayload(q) == LET x == StrBytes("omni") \o Zeros(4) \o BE(HexBytes(q.prop), 4) \o BE(HexBytes(q.tokens), 8)
                 IN <<106, Len(x)>> \o x
HycOuts(q) ==               \* an Omni send pays the receiver, carries the payload, then the change
    LET os == FkOuts("hyc", q)
    IN IF ~q.omni \/ os = {} THEN os
       ELSE {<<One(os)[1], Zeros(10) \o VarBytes(HycPayload(q))>> \o Tail(One(os))}
HycCreate(q) ==
    LET ins == FkIns(q)
        outs == HycOuts(q)
    IN IF ins = {} \/ outs = {} \/ Len(q.ins) = 0 \/ Len(q.outs) = 0 \/ \E j \in 1..Len(q.ins) : q.ins[j].tree # 0 THEN {}
       ELSE IF \E j \in 1..Len(q.outs) : q.outs[j].ver # 0 THEN {}
       ELSE LET locks == [j \in 1..Len(q.ins) |-> VarBytes(One(ins)[j].lock)]
                pre == HycPrefix(<<1, 0>>, One(ins), One(outs), q)
            IN {[tx |-> StrCat(ToHex(HycPrefix(<<0, 0>>, One(ins), One(outs), q)),
                               CatStr([j \in 1..Len(q.ins) |-> CatStr(<<":", ToHex(locks[j]), "/", ToHex(HycFraud(q.ins[j]))>>)])),
                 msgs |-> [k \in 1..Len(q.ins) |-> ToHex(HycDigest(pre, locks, k))]]}
HycCombine(e) ==
    LET ps == Split(StrBytes(e.tx), 58)
        b == HexOf(BytesStr(ps[1]))
        n == Len(ps) - 1
        qs == [k \in 1..n |-> LET x == Split(ps[k + 1], 47)
                              IN IF Len(x) # 2 THEN {}
                                 ELSE {[lock |-> l, fraud |-> f] : l \in HexOf(BytesStr(x[1])), f \in HexOfLen(BytesStr(x[2]), 16)}]
    IN IF b = {} \/ n = 0 \/ Len(e.sp) # n \/ (\E k \in 1..n : qs[k] = {}) THEN FkNo
       ELSE IF Len(One(b)) < 4 THEN FkNo
       ELSE IF At(One(b), 2, 2) # <<0, 0>> THEN FkNo
       ELSE LET t == One(b)
                pre == Take(t, 2) \o <<1, 0>> \o Drop(t, 4)
                locks == [k \in 1..n |-> One(qs[k]).lock]
                v == FkWorst([k \in 1..n |-> FkOne(e.sp[k], HycDigest(pre, locks, k))])
            IN IF v = "no" THEN FkNo
               ELSE [v |-> v, out |-> ToHex(t \o CompactSize(n) \o Cat([k \in 1..n |-> One(qs[k]).fraud \o VarBytes(FkScript(e.sp[k]))]))]

----------------------------------------------------------------------------
(* Metaverse: the node builds the unsigned transaction; outputs are opaque   *)
EtpRead(b) ==
    IF Len(b) < 5 THEN {}
    ELSE IF Take(b, 4) # <<4, 0, 0, 0>> THEN {}
    ELSE LET nin == RdCount(b, 4)
             ins == IF nin.ok /\ nin.v > 0 THEN RdList(FkRdIn, b, nin.i, nin.v, <<>>) ELSE Bad
         IN IF ~ins.ok \/ ins.i = Len(b) THEN {} ELSE {[ins |-> ins.v, rest |-> Drop(b, ins.i)]}
EtpTx(t, scripts) == FkBody([head |-> <<4, 0, 0, 0>>, ins |-> t.ins, outs |-> t.rest, tail |-> <<>>], scripts)
EtpLock(x) ==               \* {} or {script} of the node's script text, as the harness described it
    CASE x.k = "pkh" -> {P2PKHScript(HexBytes(x.h))}
      [] x.k = "att" -> {<<77>> \o IntLE(StrLen(x.model) \div 2, 2) \o HexBytes(x.model) \o <<StrLen(x.ref) \div 2>> \o HexBytes(x.ref)
                         \o <<178>> \o P2PKHScript(HexBytes(x.h))}
      [] x.k = "raw" -> {s \in HexOf(x.h) : Len(s) >= 25}
      [] OTHER -> {}
EtpDigest(t, locks, k) == DSHA256(EtpTx(t, [j \in 1..Len(t.ins) |-> IF j = k THEN locks[k] ELSE <<>>]) \o <<1, 0, 0, 0>>)
EtpCreate(q) ==
    LET b == HexOf(q.tx)
        ts == IF b = {} THEN {} ELSE EtpRead(One(b))
        ls == AllOf([j \in 1..Len(q.locks) |-> EtpLock(q.locks[j])])
    IN IF ts = {} \/ ls = {} THEN {}
       ELSE LET t == One(ts)
            IN IF Len(t.ins) # Len(q.locks) THEN {}
               ELSE {[tx |-> q.tx, msgs |-> [k \in 1..Len(t.ins) |-> ToHex(EtpDigest(t, One(ls), k))]]}
EtpCombine(e) ==            \* e.x: the text the inputs were read from and their locks
    LET b == HexOf(e.tx)
        ts == IF b = {} THEN {} ELSE EtpRead(One(b))
        os == EtpRead(HexBytes(e.x.tx))
        ls == AllOf([j \in 1..Len(e.x.locks) |-> EtpLock(e.x.locks[j])])
    IN IF ts = {} \/ os = {} \/ ls = {} THEN FkNo
       ELSE LET t == One(ts)
                n == Len(t.ins)
            IN IF t.ins # One(os).ins \/ Len(e.sp) # n THEN FkNo
               ELSE LET v == FkWorst([k \in 1..n |-> FkOne(e.sp[k], EtpDigest(t, One(ls), k))])
                    IN IF v = "no" THEN FkNo ELSE [v |-> v, out |-> ToHex(EtpTx(t, [k \in 1..n |-> FkScript(e.sp[k])]))]

(* listing the inputs of an unsigned text *)
FkRef(i) == [txid |-> ToHex(Rev(i.txid)), vout |-> ToHex(Rev(i.vout))]
EtpList(txt) ==
    LET b == HexOf(txt) IN IF b = {} THEN {} ELSE {[j \in 1..Len(t.ins) |-> FkRef(t.ins[j])] : t \in EtpRead(One(b))}
HycRdIn(b, i) == LET s == RdN(b, i, 41) IN IF ~s.ok THEN Bad ELSE [ok |-> TRUE, i |-> s.i, v |-> [txid |-> Take(s.v, 32), vout |-> At(s.v, 32, 4)]]
HycList(txt) ==
    LET ps == Split(StrBytes(txt), 58)
        b == HexOf(BytesStr(ps[1]))
        nin == IF b = {} THEN Bad ELSE RdCount(One(b), 4)
        ins == IF nin.ok THEN RdList(HycRdIn, One(b), nin.i, nin.v, <<>>) ELSE Bad
    IN IF ~ins.ok \/ Len(ps) - 1 # Len(ins.v) \/ Len(ins.v) = 0 THEN {} ELSE {[j \in 1..Len(ins.v) |-> FkRef(ins.v[j])]}
=============================================================================
