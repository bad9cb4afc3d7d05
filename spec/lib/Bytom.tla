------------------------------- MODULE Bytom -------------------------------
(* Bytom: transactions are hashed as a graph of entries (SHA3-256); spent    *)
(* programs commit to a key hash (0x00 0x14) or to a script hash (0x00 0x20) *)
EXTENDS Elastos

BtmMax == 127               \* counts are one byte
BtmAsset == Rep(255, 32)
U63(h) == LET b == Strip(HexBytes(h)) IN Len(b) <= 8 /\ (Len(b) = 8 => b[1] < 128)
BtmHrp(test) == IF test THEN "tm" ELSE "bm"
BtmPay(test, t) ==          \* {} or {program} of an address text
    IF ~OneCase(t) \/ Len(t) > 90 THEN {}
    ELSE UNION {IF d = <<>> THEN {} ELSE IF d[1] # 0 THEN {}
                ELSE {<<0, Len(b)>> \o b : b \in {x \in UnFive(Tail(d)) : Len(x) \in {20, 32}}}
                : d \in Bech32Data(BtmHrp(test), LowerT(t), Bech32Const)}
BtmAddr(test, prog) == BytesStr(Bech32(BtmHrp(test), <<0>> \o Regroup(Drop(prog, 2), 8, 5), Bech32Const))
BtmIn(x) == {[src |-> s, asset |-> a, amt |-> HexBytes(x.amt), pos |-> HexBytes(x.pos), prog |-> p] :
             s \in HexOfLen(x.src, 32), a \in HexOfLen(x.asset, 32), p \in {y \in HexOf(x.prog) : Len(y) \in {22, 34}}}
BtmOut(test, x) == {[asset |-> BtmAsset, amt |-> HexBytes(x.amt), prog |-> p] : p \in BtmPay(test, HexBytes(x.to))}
Len1(b) == UvarInt(Len(b)) \o b
BtmInBytes(i, w) ==         \* w: arguments of the witness
    LET c == i.src \o i.asset \o UvarBig(i.amt) \o UvarBig(i.pos) \o <<1>> \o Len1(i.prog)
    IN <<1>> \o Len1(<<1>> \o Len1(c)) \o Len1(UvarInt(Len(w)) \o Cat([j \in 1..Len(w) |-> Len1(w[j])]))
BtmOutBytes(o) == <<1>> \o Len1(o.asset \o UvarBig(o.amt) \o <<1>> \o Len1(o.prog)) \o <<0>>
BtmBytes(t, ws) == <<7, 1>> \o UvarBig(t.time) \o <<Len(t.ins)>> \o Cat([j \in 1..Len(t.ins) |-> BtmInBytes(t.ins[j], ws[j])])
                   \o <<Len(t.outs)>> \o Cat([j \in 1..Len(t.outs) |-> BtmOutBytes(t.outs[j])])
BtmEntry(kind, b) == SHA3x256(StrBytes(StrCat("entryid:", kind)) \o SHA3x256(b))
One8 == LE(<<1>>, 8)
BtmSpend(i) == BtmEntry("spend1:", BtmEntry("output1:", i.src \o i.asset \o LE(i.amt, 8) \o LE(i.pos, 8) \o One8 \o Len1(i.prog)))
BtmMux(t) == BtmEntry("mux1:", <<Len(t.ins)>> \o Cat([j \in 1..Len(t.ins) |-> LET i == t.ins[j] IN BtmSpend(i) \o i.asset \o LE(i.amt, 8) \o LE(i.pos, 8)])
                               \o One8 \o <<1, 81>>)
BtmId(t) == LET mux == BtmMux(t)
                Ent(j) == LET o == t.outs[j] IN BtmEntry("output1:", mux \o o.asset \o LE(o.amt, 8) \o IntLE(j - 1, 8) \o One8 \o Len1(o.prog))
            IN BtmEntry("txheader:", One8 \o LE(t.time, 8) \o <<Len(t.outs)>> \o Cat([j \in 1..Len(t.outs) |-> Ent(j)]))
BtmDigests(t) == LET id == BtmId(t) IN [j \in 1..Len(t.ins) |-> SHA3x256(BtmSpend(t.ins[j]) \o id)]
BtmCreate(q) ==
    LET ins == AllOf([j \in 1..Len(q.ins) |-> BtmIn(q.ins[j])])
        outs == AllOf([j \in 1..Len(q.outs) |-> BtmOut(q.test, q.outs[j])])
    IN IF ins = {} \/ outs = {} \/ Len(q.ins) \notin 1..BtmMax \/ Len(q.outs) \notin 1..BtmMax \/ ~U63(q.time) THEN {}
       ELSE IF (\E j \in 1..Len(q.ins) : ~U63(q.ins[j].amt) \/ ~U63(q.ins[j].pos)) \/ (\E j \in 1..Len(q.outs) : ~U63(q.outs[j].amt)) THEN {}
       ELSE LET t == [time |-> HexBytes(q.time), ins |-> One(ins), outs |-> One(outs)]
                d == BtmDigests(t)
            IN {[tx |-> ToHex(BtmBytes(t, [j \in 1..Len(t.ins) |-> <<>>])), msgs |-> [j \in 1..Len(d) |-> ToHex(d[j])],
                 who |-> [j \in 1..Len(d) |-> IF Len(t.ins[j].prog) = 34 THEN "multi" ELSE BtmAddr(q.test, t.ins[j].prog)]]}
BtmMay(q) == \E j \in 1..Len(q.outs) : LET t == HexBytes(q.outs[j].to) IN LowerT(t) # t

(* reading *)
RdU(b, i) ==                \* canonical LEB128 below 2^63, as a big-endian natural
    LET ks == {k \in (i + 1)..Len(b) : b[k] < 128}
        e == IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
        v == Convert(Rev([k \in 1..(e - i) |-> b[i + k] % 128]), 128, 256)
    IN IF e = 0 \/ e - i > 9 THEN Bad ELSE IF UvarBig(v) # At(b, i, e - i) THEN Bad ELSE [ok |-> TRUE, v |-> v, i |-> e]
RdUB(b, i) == LET n == RdU(b, i) IN IF ~n.ok THEN Bad ELSE IF ~Fits(n.v, 3) THEN Bad ELSE RdN(b, n.i, ToInt(n.v))
RdByte(b, i, x) == IF i < Len(b) /\ b[i + 1] = x THEN [ok |-> TRUE, v |-> x, i |-> i + 1] ELSE Bad
BtmArgs(w) ==               \* {} or {arguments}
    LET n == IF w = <<>> THEN Bad ELSE [ok |-> TRUE, v |-> w[1], i |-> 1]
        l == IF n.ok /\ n.v < 128 THEN RdList(RdUB, w, 1, n.v, <<>>) ELSE Bad
    IN IF l.ok /\ l.i = Len(w) THEN {l.v} ELSE {}
BtmRdIn(b, i) ==
    LET v == RdByte(b, i, 1)
        c == IF v.ok THEN RdUB(b, v.i) ELSE Bad
        w == IF c.ok THEN RdUB(b, c.i) ELSE Bad
    IN IF ~w.ok THEN Bad ELSE IF w.v = <<>> \/ (Len(w.v) = 1 /\ w.v # <<0>>) THEN Bad
       ELSE LET s == c.v
                t == IF Len(s) > 1 /\ s[1] = 1 THEN RdUB(s, 1) ELSE Bad
                k == IF t.ok /\ t.i = Len(s) /\ Len(t.v) > 64 THEN t.v ELSE <<>>
                a == IF k = <<>> THEN Bad ELSE RdU(k, 64)
                p == IF a.ok THEN RdU(k, a.i) ELSE Bad
                m == IF p.ok THEN RdByte(k, p.i, 1) ELSE Bad
                g == IF m.ok THEN RdUB(k, m.i) ELSE Bad
            IN IF ~g.ok \/ g.i # Len(k) THEN Bad
               ELSE [ok |-> TRUE, i |-> w.i, v |-> [src |-> Take(k, 32), asset |-> At(k, 32, 32), amt |-> a.v, pos |-> p.v, prog |-> g.v, wit |-> w.v]]
BtmRdOut(b, i) ==
    LET v == RdByte(b, i, 1)
        c == IF v.ok THEN RdUB(b, v.i) ELSE Bad
        z == IF c.ok THEN RdByte(b, c.i, 0) ELSE Bad
        k == IF z.ok /\ Len(c.v) > 32 THEN c.v ELSE <<>>
        a == IF k = <<>> THEN Bad ELSE RdU(k, 32)
        m == IF a.ok THEN RdByte(k, a.i, 1) ELSE Bad
        g == IF m.ok THEN RdUB(k, m.i) ELSE Bad
    IN IF ~g.ok \/ g.i # Len(k) \/ g.v = <<>> THEN Bad ELSE [ok |-> TRUE, i |-> z.i, v |-> [asset |-> Take(k, 32), amt |-> a.v, prog |-> g.v]]
BtmRead(b) ==
    LET h == Len(b) > 2 /\ Take(b, 2) = <<7, 1>>
        tm == IF h THEN RdU(b, 2) ELSE Bad
        ni == IF tm.ok /\ tm.i < Len(b) THEN b[tm.i + 1] ELSE 0
        is == IF ni \in 1..BtmMax THEN RdList(BtmRdIn, b, tm.i + 1, ni, <<>>) ELSE Bad
        no == IF is.ok /\ is.i < Len(b) THEN b[is.i + 1] ELSE 0
        os == IF no \in 1..BtmMax THEN RdList(BtmRdOut, b, is.i + 1, no, <<>>) ELSE Bad
    IN IF os.ok /\ os.i = Len(b) THEN {[time |-> tm.v, ins |-> is.v, outs |-> os.v]} ELSE {}

(* m-of-n scripts *)
BtmScript(m, ks) == <<174>> \o Cat([j \in 1..Len(ks) |-> <<32>> \o ks[j]]) \o <<80 + m, 80 + Len(ks), 173>>
BtmScriptProg(s) == <<0, 32>> \o SHA3x256(s)
BtmUnscript(s) ==           \* {} or {[m, keys]}
    LET n == (Len(s) - 4) \div 33
        ks == [j \in 1..n |-> At(s, 2 + 33 * (j - 1), 32)]
        m == s[Len(s) - 2] - 80
    IN IF Len(s) < 37 \/ Len(s) # 4 + 33 * n \/ n > 16 THEN {} ELSE IF m \notin 1..n THEN {} ELSE IF BtmScript(m, ks) = s THEN {[m |-> m, keys |-> ks]} ELSE {}
BtmMulti(e) ==              \* {} or {<<address, script>>}
    LET ks == AllOf([j \in 1..Len(e.keys) |-> HexOfLen(e.keys[j], 32)])
    IN IF ks = {} \/ Len(e.keys) \notin 1..16 \/ e.m \notin 1..Len(e.keys) THEN {}
       ELSE LET s == BtmScript(e.m, One(ks)) IN {<<BtmAddr(e.test, BtmScriptProg(s)), ToHex(s)>>}

(* verification: each signature by the next key that fits, in order *)
RECURSIVE BtmCount(_, _, _, _)
BtmCount(sigs, keys, k, dig) ==     \* whether sigs are all used up by keys k..
    IF sigs = <<>> THEN TRUE ELSE IF k > Len(keys) THEN FALSE
    ELSE IF EdOK(keys[k], dig, sigs[1]) THEN BtmCount(Tail(sigs), keys, k + 1, dig) ELSE BtmCount(sigs, keys, k + 1, dig)
BtmInOK(i, dig) ==
    LET ar == BtmArgs(i.wit)
    IN IF ar = {} THEN FALSE
       ELSE LET a == One(ar)
            IN CASE Len(i.prog) = 22 -> Len(a) = 2 /\ Len(a[1]) = 64 /\ Len(a[2]) = 32 /\ EdOK(a[2], dig, a[1])
                 [] Len(i.prog) = 34 ->
                      /\ Len(a) > 1 /\ \A j \in 1..(Len(a) - 1) : Len(a[j]) = 64
                      /\ i.prog = BtmScriptProg(a[Len(a)])
                      /\ \E s \in BtmUnscript(a[Len(a)]) : Len(a) - 1 = s.m /\ BtmCount(Take(a, s.m), s.keys, 1, dig)
                 [] OTHER -> FALSE
BtmValid(txt) == \E b \in HexOf(txt) : \E t \in BtmRead(b) :
                 LET d == BtmDigests(t) IN \A j \in 1..Len(t.ins) : BtmInOK(t.ins[j], d[j])

(* putting collected signatures in: it[j] = [m |-> 0, sps |-> <<[sig, pub]>>]  *)
(* or [m |-> threshold, sps |-> one entry per key, sig "" when it is missing]  *)
BtmItem(i, x) ==            \* {} or {arguments}
    LET ok == \A j \in 1..Len(x.sps) : HexOfLen(x.sps[j].pub, 32) # {}
        S(j) == x.sps[j].sig
        have == SelectSeq(Firsts(x.sps), LAMBDA j : S(j) # "")
        use == IF Len(have) < x.m THEN <<>> ELSE Take(have, x.m)
    IN IF x.m = 0
       THEN IF Len(i.prog) # 22 \/ Len(x.sps) # 1 THEN {} ELSE {<<g, p>> : g \in HexOfLen(S(1), 64), p \in HexOfLen(x.sps[1].pub, 32)}
       ELSE IF Len(i.prog) # 34 \/ ~ok \/ Len(x.sps) \notin 1..16 \/ x.m > Len(x.sps) \/ use = <<>> THEN {}
       ELSE LET s == BtmScript(x.m, [j \in 1..Len(x.sps) |-> HexBytes(x.sps[j].pub)])
                gs == AllOf([k \in 1..x.m |-> HexOfLen(S(use[k]), 64)])
            IN IF i.prog # BtmScriptProg(s) THEN {} ELSE {g \o <<s>> : g \in gs}
BtmInsert(txt, its) ==
    LET b == HexOf(txt)
        ts == IF b = {} THEN {} ELSE BtmRead(One(b))
    IN IF ts = {} THEN {}
       ELSE LET t == One(ts)
                ws == IF Len(its) # Len(t.ins) THEN {} ELSE AllOf([j \in 1..Len(its) |-> BtmItem(t.ins[j], its[j])])
            IN {ToHex(BtmBytes(t, w)) : w \in ws}
BtmCombine(e) ==            \* one plain signature per input: insertion, then verification
    LET o == BtmInsert(e.tx, [j \in 1..Len(e.sp) |-> [m |-> 0, sps |-> <<e.sp[j]>>]])
    IN IF o = {} THEN FkNo ELSE IF BtmValid(One(o)) THEN [v |-> "yes", out |-> One(o)] ELSE FkNo
=============================================================================
