-------------------------------- MODULE Btc --------------------------------
(* Bitcoin-family drivers: bytes of unsigned transactions, signature hashes, *)
(* assembly of signed transactions and their validity against the outputs    *)
(* they spend.  A profile p names the driver and the network:                *)
(*   drv, pkh, sh, sh2 (version bytes; sh2 may be empty), hrp                *)
(* "Partial" operators return a set: {} = refused, {x} = x.                  *)
EXTENDS Addr

(* The networks the drivers export *)
Net(pkh, sh, sh2, hrp) == [pkh |-> HexBytes(pkh), sh |-> HexBytes(sh), sh2 |-> HexBytes(sh2), hrp |-> hrp]
Btc7(b) == [BTCMainnet |-> Net("00", "05", "", "bc"), BTCTestnet |-> Net("6f", "c4", "", "tb"),
            BCHMainnet |-> Net("00", "05", "", "bc"), BCHTestnet |-> Net("6f", "c4", "", "tb"),
            LTCMainnet |-> Net("30", "05", IF b THEN "32" ELSE "", "ltc"), LTCTestnet |-> Net("6f", "c4", IF b THEN "3a" ELSE "", "tltc"),
            ZECMainnet |-> Net("1cb8", "1cbd", "", ""), ZECTestnet |-> Net("1d25", "1cba", "", "")]
Networks == [btc |-> Btc7(TRUE), bch |-> Btc7(TRUE), bsv |-> Btc7(TRUE), cxc |-> Btc7(FALSE),
             omni |-> [BTCMainnet |-> Net("00", "05", "", "bc"), BTCTestnet |-> Net("6f", "c4", "", "tb")],
             zen |-> [ZENMainnet |-> Net("2089", "2096", "", "bc")],
             leg |-> [BTCTestnet |-> Net("6f", "c4", "", "tb")],
             hc |-> [HCMainnet |-> Net("097f", "7f", "", ""), HCTestnet |-> Net("0f21", "21", "", "")]]

(* The legacy driver knows one network, always allows witnesses, takes the    *)
(* kind of an input from its lock script alone, has no signature types and   *)
(* keeps the version of the transactions it reads.                           *)
Old(p) == p.drv = "leg"
Ver(p) == IF p.drv \in {"btc", "hc", "omni", "leg"} THEN 2 ELSE 1
Fork(p) == p.drv \in {"bch", "bsv"}                \* replay protected signature hashes
SigAll(p) == IF Fork(p) THEN 65 ELSE 1
MaxCount == 252

Hash20At(b, from) == At(b, from, 20)
WitScript(prog) == <<0, Len(prog)>> \o prog

----------------------------------------------------------------------------
(* Addresses of outputs *)
B58Kinds(p) == {<<p.pkh, "pkh">>, <<p.sh, "sh">>} \cup (IF p.sh2 = <<>> THEN {} ELSE {<<p.sh2, "sh">>})
Bech32Prog(p, t) ==            \* version 0 witness program of a bech32 text
    LET d == Bech32Data(p.hrp, t, Bech32Const)
        n == IF d = {} THEN {} ELSE LET x == CHOOSE y \in d : TRUE IN IF x # <<>> /\ x[1] = 0 THEN UnFive(Tail(x)) ELSE {}
    IN {x \in n : Len(x) \in {20, 32}}
IsBech32Text(p, t) == p.hrp # "" /\ StartsWith(t, StrBytes(StrCat(p.hrp, "1")))
PayTo(p, t) ==
    IF IsBech32Text(p, t)
    THEN IF p.drv \in {"zen", "bch", "bsv"} THEN {} ELSE {WitScript(x) : x \in Bech32Prog(p, t)}
    ELSE LET d == B58Payload(t, "doubleSHA256", B58)
         IN UNION {{IF k[2] = "pkh" THEN P2PKHScript(Drop(x, Len(k[1]))) ELSE P2SHScript(Drop(x, Len(k[1]))) :
                    x \in {y \in d : Len(y) = Len(k[1]) + 20 /\ StartsWith(y, k[1])}} : k \in B58Kinds(p)}

----------------------------------------------------------------------------
(* Unsigned transactions *)
Sequence4(lock, rbf) == IF rbf THEN HexBytes("fdffffff") ELSE IF Strip(lock) # <<>> THEN HexBytes("feffffff") ELSE HexBytes("ffffffff")
TxIdBytes(t) == LET s == BytesStr(t) IN IF Len(t) = 64 /\ IsHex(s) THEN {Rev(HexBytes(s))} ELSE {}
OutBytes(o) == o.amt \o VarBytes(o.script)              \* amt already little endian
InBytes(n, script) == n.txid \o n.vout \o VarBytes(script) \o n.seq
Body(ver, marker, ins, scripts, outs, wits, lock) ==
    IntLE(ver, 4) \o marker
    \o CompactSize(Len(ins)) \o Cat([i \in 1..Len(ins) |-> InBytes(ins[i], scripts[i])])
    \o CompactSize(Len(outs)) \o Cat([i \in 1..Len(outs) |-> OutBytes(outs[i])])
    \o wits \o lock
NoScripts(ins) == [i \in 1..Len(ins) |-> <<>>]
Inputs(vins, lock, rbf) ==
    AllOf([i \in 1..Len(vins) |-> {[txid |-> x, vout |-> Rev(HexBytes(vins[i].vout)), seq |-> Sequence4(lock, rbf)] :
                                   x \in TxIdBytes(HexBytes(vins[i].txid))}])
Unsigned(p, ins, outs, lock) == Body(Ver(p), <<>>, ins, NoScripts(ins), outs, <<>>, Rev(lock))
Build(p, vins, lock, rbf, outs) ==      \* outs: partial sequence of outputs
    IF Len(vins) = 0 \/ Len(vins) > MaxCount THEN {}
    ELSE UNION {{Unsigned(p, n, o, lock) : o \in {x \in outs : Len(x) \in 1..MaxCount}} : n \in Inputs(vins, lock, rbf)}
PlainOuts(p, vouts, suffix) ==
    IF vouts = <<>> THEN {}
    ELSE AllOf([i \in 1..Len(vouts) |-> {[amt |-> Rev(HexBytes(vouts[i].amt)), script |-> x \o suffix] : x \in PayTo(p, HexBytes(vouts[i].addr))}])

(* ZenCash: every output ends with a reference to a recent block *)
ScriptNum(x) == LET h == Strip(x) IN Rev(IF h # <<>> /\ h[1] >= 128 THEN <<0>> \o h ELSE h)
ZenSuffix(hash, height) == LET h == ScriptNum(height) IN <<32>> \o Rev(hash) \o <<Len(h)>> \o h \o <<180>>
Create(p, e) ==
    LET lock == HexBytes(e.lock)
    IN IF p.drv = "zen"
       THEN LET bh == TxIdBytes(HexBytes(e.bh))
            IN UNION {Build(p, e.vins, lock, e.rbf, PlainOuts(p, e.vouts, ZenSuffix(Rev(x), HexBytes(e.height)))) : x \in bh}
       ELSE Build(p, e.vins, lock, e.rbf, PlainOuts(p, e.vouts, <<>>))

(* Omni layer payloads *)
OmniBody(o) ==
    LET head == <<0, 0>> \o IntBE(o.typ, 2)
        prop == HexBytes(o.prop)
        amt == HexBytes(o.amt)
        memo == HexBytes(o.memo)
    IN CASE o.typ \in {0, 22} -> {head \o prop \o amt}
         [] o.typ \in {4, 28} -> {head \o <<o.eco>>}
         [] o.typ \in {53, 70, 71, 72} -> {head \o prop}
         [] o.typ \in {55, 56} -> IF Len(memo) > 255 THEN {} ELSE {head \o prop \o amt \o memo \o <<0>>}
         [] o.typ \in {185, 186} -> {head \o prop \o amt \o x : x \in {y \in B58Payload(HexBytes(o.addr), "doubleSHA256", B58) : Len(y) = 21}}
         [] OTHER -> {}
OmniScript(o) == {<<106>> \o (IF Len(x) < 76 THEN <<Len(x)>> ELSE <<76, Len(x)>>) \o x :
                  x \in {y \in {StrBytes("omni") \o z : z \in OmniBody(o)} : Len(y) < 250}}
OmniOuts(p, vouts, o) ==
    UNION {{Append(x, [amt |-> Zeros(8), script |-> s]) : x \in PlainOuts(p, vouts, <<>>)} : s \in OmniScript(o)}
CreateOmni(p, e) == Build([p EXCEPT !.sh2 = <<>>], e.vins, HexBytes(e.lock), e.rbf, OmniOuts([p EXCEPT !.sh2 = <<>>], e.vouts, e.omni))

(* CXC native assets *)
AssetTail(id, amt) == LET x == StrBytes("spkq") \o Rev(id) \o Rev(amt) IN <<Len(x)>> \o x \o <<117>>
AssetId(t) == LET s == BytesStr(t) IN IF Len(t) = 32 /\ IsHex(s) THEN {HexBytes(s)} ELSE {}
AssetOuts(p, to) ==
    AllOf([i \in 1..Len(to) |->
        UNION {{[amt |-> Zeros(8), script |-> s \o AssetTail(a, HexBytes(to[i].amt))] : s \in PayTo(p, HexBytes(to[i].addr))} :
               a \in AssetId(HexBytes(to[i].id))}])
CreateAsset(p, e) ==
    Build(p, e.vins, HexBytes(e.lock), e.rbf,
          UNION {{a \o c : c \in PlainOuts(p, <<e.change>>, <<>>)} : a \in AssetOuts(p, e.to)})

----------------------------------------------------------------------------
(* Reading transactions. *)
RdIn(b, i) ==
    LET s == RdVar(b, i + 36)
        q == RdN(b, s.i, 4)
    IN IF ~s.ok \/ ~q.ok THEN Bad
       ELSE [ok |-> TRUE, i |-> q.i, v |-> [txid |-> At(b, i, 32), vout |-> At(b, i + 32, 4), script |-> s.v, seq |-> q.v]]
RdOut(b, i) ==
    LET s == RdVar(b, i + 8) IN IF ~s.ok THEN Bad ELSE [ok |-> TRUE, i |-> s.i, v |-> [amt |-> At(b, i, 8), script |-> s.v]]
RdItems(b, i) == LET c == RdCount(b, i) IN IF c.ok THEN RdList(RdVar, b, c.i, c.v, <<>>) ELSE Bad
(* a transaction of either format; {} if b is not exactly one transaction *)
ParseTx(b) ==
    IF Len(b) < 10 THEN {}
    ELSE LET seg == b[5] = 0
             s == IF seg THEN 6 ELSE 4
             nin == RdCount(b, s)
             ins == IF nin.ok THEN RdList(RdIn, b, nin.i, nin.v, <<>>) ELSE Bad
             nout == IF ins.ok THEN RdCount(b, ins.i) ELSE Bad
             outs == IF nout.ok THEN RdList(RdOut, b, nout.i, nout.v, <<>>) ELSE Bad
             wit == IF ~outs.ok THEN Bad
                    ELSE IF seg THEN RdList(RdItems, b, outs.i, nin.v, <<>>)
                    ELSE [ok |-> TRUE, v |-> [k \in 1..nin.v |-> <<>>], i |-> outs.i]
         IN IF (seg /\ b[6] # 1) \/ ~wit.ok THEN {}
            ELSE IF wit.i + 4 # Len(b) \/ nin.v = 0 \/ nout.v = 0 \/ nin.v > MaxCount \/ nout.v > MaxCount THEN {}
            ELSE {[ver |-> Take(b, 4), seg |-> seg, ins |-> ins.v, outs |-> outs.v, wit |-> wit.v, lock |-> Drop(b, wit.i)]}
TxVer(p) == IntLE(Ver(p), 4)
VerOK(p, t) == t.ver = TxVer(p) \/ Old(p)

----------------------------------------------------------------------------
(* Spent outputs: the kind of an input, from the lock and redeem script      *)
(* (hexadecimal texts) of its unlock record                                  *)
(* multisig scripts with compressed keys: {} or {[m, keys]} *)
RECURSIVE MsKeys(_, _, _)
MsKeys(r, i, acc) == IF i < Len(r) /\ r[i + 1] = 33 /\ i + 34 <= Len(r) THEN MsKeys(r, i + 34, Append(acc, At(r, i + 1, 33))) ELSE [i |-> i, keys |-> acc]
MsRead(r) ==
    IF Len(r) < 37 THEN {}
    ELSE LET m == r[1] - 80
             k == MsKeys(r, 1, <<>>)
             n == Len(k.keys)
         IN IF m \in 1..16 /\ n >= m /\ n <= 16 /\ k.i + 2 = Len(r) /\ r[k.i + 1] = 80 + n /\ r[k.i + 2] = 174
            THEN {[m |-> m, keys |-> k.keys]} ELSE {}
None == [k |-> "none", lock |-> <<>>, redeem |-> <<>>]
Kind(p, u) ==
    LET l == HexOf(u.lock) r == HexOf(u.redeem)
    IN IF l = {} THEN None
       ELSE LET lock == One(l)
                n == Len(lock)
                tail == IF p.drv = "cxc" THEN 30 ELSE 0
                As(k, red) == [k |-> k, lock |-> lock, redeem |-> red]
            IN IF p.drv = "zen" THEN (IF n \in 25..252 THEN As("pkh", <<>>) ELSE None)
               ELSE IF n \in {25, 25 + tail} /\ Take(lock, 3) = <<118, 169, 20>> /\ At(lock, 23, 2) = <<136, 172>>
                    THEN IF u.redeem # "" /\ ~Fork(p) /\ ~Old(p) THEN None ELSE As("pkh", <<>>)
               ELSE IF n \in {23, 23 + tail} /\ Take(lock, 2) = <<169, 20>> /\ lock[23] = 135
                    THEN IF r = {} THEN None
                         ELSE LET red == One(r)
                              IN IF Len(red) = 22 /\ Take(red, 2) = <<0, 20>> THEN As("nested", red)
                                 ELSE IF Len(red) >= 37 /\ red[Len(red)] = 174 THEN As("multi", red) ELSE None
               ELSE IF n = 22 /\ Take(lock, 2) = <<0, 20>>
                    THEN IF u.redeem # "" /\ ~Old(p) THEN None ELSE As("native", <<>>)
               ELSE None
(* whether the input is spent through its witness *)
Witnessed(k, seg) == k.k \in {"nested", "native"} \/ (k.k = "multi" /\ seg)
(* kinds the drivers of forks without witnesses specify *)
Specified(p, k, seg) == ~Fork(p) \/ (k.k = "pkh") \/ (k.k = "multi" /\ ~seg) \/ k.k = "none"

(* Signature hashes.  t is a parsed transaction, i an input, k its kind.     *)
Unscripted(t) == [j \in 1..Len(t.ins) |-> <<>>]
Legacy(t, i, code, ht) ==
    DSHA256(t.ver \o Drop(Body(0, <<>>, t.ins, [Unscripted(t) EXCEPT ![i] = code], t.outs, <<>>, t.lock \o IntLE(ht, 4)), 4))
Bip143(t, i, code, amt, ht) ==
    LET x == t.ins[i]
    IN DSHA256(t.ver \o DSHA256(Cat([j \in 1..Len(t.ins) |-> t.ins[j].txid \o t.ins[j].vout]))
               \o DSHA256(Cat([j \in 1..Len(t.ins) |-> t.ins[j].seq]))
               \o x.txid \o x.vout \o VarBytes(code) \o Rev(amt) \o x.seq
               \o DSHA256(Cat([j \in 1..Len(t.outs) |-> OutBytes(t.outs[j])])) \o t.lock \o IntLE(ht, 4))
ScriptCode(k) == CASE k.k = "nested" -> P2PKHScript(Drop(k.redeem, 2))
                   [] k.k = "native" -> P2PKHScript(Drop(k.lock, 2))
                   [] k.k = "multi" -> k.redeem
                   [] OTHER -> k.lock
Commits(p, k, seg) == Fork(p) \/ Witnessed(k, seg)          \* digest covers the spent amount
SigHash(p, t, i, k, amt, seg) ==
    IF Commits(p, k, seg) THEN Bip143(t, i, ScriptCode(k), amt, SigAll(p)) ELSE Legacy(t, i, ScriptCode(k), SigAll(p))
(* an unlock record that can be used at all *)
Usable(p, u, k, seg) ==
    /\ k.k # "none" /\ (u.st = SigAll(p) \/ Old(p))
    /\ Commits(p, k, seg) /\ ~Old(p) => Strip(HexBytes(u.amt)) # <<>>
    /\ k.k = "multi" => MsRead(k.redeem) # {}

(* what is handed out to the signers of input i *)
AddrOf(p, k) ==
    CASE k.k = "pkh" -> IF p.drv = "bch" THEN BytesStr(CashText("bitcoincash", <<0>> \o At(k.lock, 3, 20))) ELSE BytesStr(B58Check(p.pkh \o At(k.lock, 3, 20), "doubleSHA256", B58))
      [] k.k = "nested" -> BytesStr(B58Check(p.sh \o At(k.lock, 2, 20), "doubleSHA256", B58))
      [] k.k = "native" -> BytesStr(Bech32(p.hrp, <<0>> \o Regroup(Drop(k.lock, 2), 8, 5), Bech32Const))
      [] OTHER -> ""
HandOut(p, t, i, u, k, seg) ==
    LET h == ToHex(SigHash(p, t, i, k, HexBytes(u.amt), seg))
    IN IF k.k = "multi"
       THEN LET ms == One(MsRead(k.redeem))
            IN [hash |-> h, n |-> ms.m, addr |-> "", st |-> [j \in 1..Len(ms.keys) |-> u.st], keys |-> [j \in 1..Len(ms.keys) |-> ToHex(ms.keys[j])]]
       ELSE [hash |-> h, n |-> 0, addr |-> AddrOf(p, k), st |-> <<u.st>>, keys |-> <<>>]
Kinds(p, un) == [i \in 1..Len(un) |-> Kind(p, un[i])]
Digests(p, txb, un, seg) ==
    UNION {LET ks == Kinds(p, un)
           IN IF ~VerOK(p, t) \/ Len(un) # Len(t.ins) THEN {}
              ELSE IF \E i \in 1..Len(un) : ~Usable(p, un[i], ks[i], seg) THEN {}
              ELSE {[i \in 1..Len(un) |-> HandOut(p, t, i, un[i], ks[i], seg)]} : t \in ParseTx(txb)}

----------------------------------------------------------------------------
(* Assembly.  h is the signer's record of one input:                         *)
(*   n, sigs: sequence of [sig, pub, st] (sig = pub = "" when absent)         *)
Push(b) == IF Len(b) < 76 THEN <<Len(b)>> \o b ELSE IF Len(b) < 256 THEN <<76, Len(b)>> \o b ELSE <<77>> \o IntLE(Len(b), 2) \o b
SigOK(s) == IsHex(s.sig) /\ IsHex(s.pub) /\ StrLen(s.sig) = 128 /\ StrLen(s.pub) = 66
Absent(s) == s.sig = "" /\ s.pub = ""
RECURSIVE FirstN(_, _)
FirstN(ss, n) == IF n = 0 \/ ss = <<>> THEN <<>> ELSE IF Absent(ss[1]) THEN FirstN(Tail(ss), n) ELSE <<ss[1]>> \o FirstN(Tail(ss), n - 1)
Complete(k, h) ==
    IF k.k = "multi" THEN /\ h.n >= 1
                          /\ \A j \in 1..Len(h.sigs) : Absent(h.sigs[j]) \/ SigOK(h.sigs[j])
                          /\ Cardinality({j \in 1..Len(h.sigs) : ~Absent(h.sigs[j])}) >= h.n
    ELSE h.n = 0 /\ Len(h.sigs) = 1 /\ SigOK(h.sigs[1])
SigPubPush(s) == DerPush(HexBytes(s.sig), s.st) \o <<33>> \o HexBytes(s.pub)
ScriptSig(k, h, seg) ==
    CASE k.k = "pkh" -> SigPubPush(h.sigs[1])
      [] k.k = "nested" -> <<22>> \o k.redeem
      [] k.k = "native" -> <<>>
      [] k.k = "multi" -> IF seg THEN <<34, 0, 32>> \o SHA256(k.redeem)
                          ELSE <<0>> \o Cat([j \in 1..h.n |-> LET s == FirstN(h.sigs, h.n)[j] IN DerPush(HexBytes(s.sig), s.st)]) \o Push(k.redeem)
WitnessOf(k, h, seg) ==
    CASE k.k = "pkh" -> <<0>>
      [] k.k \in {"nested", "native"} -> <<2>> \o SigPubPush(h.sigs[1])
      [] k.k = "multi" -> IF seg THEN <<h.n + 2, 0>> \o Cat([j \in 1..h.n |-> LET s == FirstN(h.sigs, h.n)[j] IN DerPush(HexBytes(s.sig), s.st)])
                                      \o VarBytes(k.redeem)
                          ELSE <<0>>
AssembleAs(p, txb, hs, ks, seg) ==
    UNION {LET n == Len(ks)
               anyw == \E i \in 1..n : Witnessed(ks[i], seg)
               wits == IF anyw THEN Cat([i \in 1..n |-> WitnessOf(ks[i], hs[i], seg)]) ELSE <<>>
           IN IF ~VerOK(p, t) \/ n # Len(t.ins) \/ Len(hs) # Len(t.ins) THEN {}
              ELSE IF \E i \in 1..n : ks[i].k = "none" THEN {}
              ELSE IF \E i \in 1..n : ~Complete(ks[i], hs[i]) THEN {}
              ELSE IF anyw /\ ~seg THEN {}
              ELSE {t.ver \o Drop(Body(0, IF anyw THEN <<0, 1>> ELSE <<>>, t.ins,
                                       [i \in 1..n |-> ScriptSig(ks[i], hs[i], seg)], t.outs, wits, t.lock), 4)} :
           t \in ParseTx(txb)}
(* The legacy driver takes one list of signatures: one per input, or the     *)
(* required ones of a multi-signature input, which must be the only one.     *)
OldSig(s) == [s EXCEPT !.st = 1]
OldSigs(hs) == FlattenSeq([i \in 1..Len(hs) |->
    IF hs[i].n # 0 THEN LET x == SelectSeq(hs[i].sigs, LAMBDA s : ~Absent(s)) IN [j \in 1..Len(x) |-> OldSig(x[j])]
    ELSE IF hs[i].sigs = <<>> THEN <<[sig |-> "", pub |-> "", st |-> 1]>> ELSE <<OldSig(hs[i].sigs[1])>>])
OldKind(p, u) ==
    IF u.lock # "" THEN Kind(p, u)
    ELSE IF u.redeem = "" THEN [None EXCEPT !.k = "pkh"]
    ELSE LET r == HexOf(u.redeem) IN IF r # {} /\ Len(One(r)) = 22 /\ Take(One(r), 2) = <<0, 20>> THEN [None EXCEPT !.k = "nested", !.redeem = One(r)] ELSE None
OldHs(ks, sigs) ==
    IF ks # <<>> /\ ks[1].k = "multi"
    THEN LET ms == MsRead(ks[1].redeem) IN IF Len(ks) = 1 /\ ms # {} /\ Len(sigs) = One(ms).m THEN {<<[n |-> Len(sigs), sigs |-> sigs]>>} ELSE {}
    ELSE IF Len(sigs) # Len(ks) \/ \E i \in 1..Len(ks) : ks[i].k = "multi" THEN {}
    ELSE {[i \in 1..Len(ks) |-> [n |-> 0, sigs |-> <<sigs[i]>>]]}
Assemble(p, txb, hs, un, seg) ==
    IF Old(p) THEN LET ks == [i \in 1..Len(un) |-> OldKind(p, un[i])] IN UNION {AssembleAs(p, txb, h, ks, TRUE) : h \in OldHs(ks, OldSigs(hs))}
    ELSE AssembleAs(p, txb, hs, Kinds(p, un), seg)

----------------------------------------------------------------------------
(* Validity of a signed transaction against unlock records.  Verdicts: "no", *)
(* "yes", and "open" where the drivers are free (malleable S).               *)
(* readers of pushed signatures: strict DER only *)
SigOfDer(d, ht) ==
    IF Len(d) < 9 \/ d[Len(d)] # ht \/ d[1] # 48 \/ d[3] # 2 THEN {}
    ELSE LET rl == d[4]
         IN IF rl < 1 \/ rl > 33 \/ Len(d) < 4 + rl + 2 + 1 + 1 THEN {}
            ELSE LET r == At(d, 4, rl)
                     sl == d[4 + rl + 2]
                 IN IF sl < 1 \/ sl > 33 \/ Len(d) # 4 + rl + 2 + sl + 1 THEN {}
                    ELSE LET s == At(d, 4 + rl + 2, sl)
                             sig == PadL(Strip(r), 32) \o PadL(Strip(s), 32)
                         IN IF Len(Strip(r)) <= 32 /\ Len(Strip(s)) <= 32 /\ Der(sig) \o <<ht>> = d THEN {sig} ELSE {}
(* data pushes of a script: {} or {sequence} *)
RECURSIVE Pushes(_, _, _)
Pushes(b, i, acc) ==
    IF i = Len(b) THEN {acc}
    ELSE LET o == b[i + 1]
             x == IF o <= 75 THEN RdN(b, i + 1, o)
                  ELSE IF o = 76 /\ i + 2 <= Len(b) /\ b[i + 2] >= 76 THEN RdN(b, i + 2, b[i + 2])
                  ELSE IF o = 77 /\ i + 3 <= Len(b) /\ b[i + 3] >= 1 THEN RdN(b, i + 3, b[i + 2] + 256 * b[i + 3])
                  ELSE Bad
         IN IF x.ok THEN Pushes(b, x.i, Append(acc, x.v)) ELSE {}
Worst(vs) == IF \E i \in 1..Len(vs) : vs[i] = "no" THEN "no" ELSE IF \E i \in 1..Len(vs) : vs[i] = "open" THEN "open" ELSE "yes"
SigVerdict(sig, key, dig) == IF ~EcdsaOK("k1", key, dig, sig) THEN "no" ELSE IF HighS(sig) THEN "open" ELSE "yes"
(* one signature and one key which must hash to h20 (h20 = <<>>: any key) *)
OneKey(items, h20, dig, ht) ==
    IF Len(items) # 2 \/ Len(items[2]) # 33 THEN "no"
    ELSE IF h20 # <<>> /\ HASH160(items[2]) # h20 THEN "no"
    ELSE LET s == SigOfDer(items[1], ht) IN IF s = {} THEN "no" ELSE SigVerdict(One(s), items[2], dig)
(* m signatures in the order of distinct keys *)
RECURSIVE InOrder(_, _, _)
InOrder(sigs, keys, dig) ==
    IF sigs = <<>> THEN TRUE
    ELSE IF Len(keys) < Len(sigs) THEN FALSE
    ELSE IF EcdsaOK("k1", keys[1], dig, sigs[1]) THEN InOrder(Tail(sigs), Tail(keys), dig) ELSE InOrder(sigs, Tail(keys), dig)
MultiItems(items, redeem, dig, ht) ==      \* dummy, signatures, redeem script
    LET ms == One(MsRead(redeem))
        ss == [j \in 1..(Len(items) - 2) |-> SigOfDer(items[j + 1], ht)]
    IN IF Len(items) # ms.m + 2 \/ items[1] # <<>> \/ items[Len(items)] # redeem THEN "no"
       ELSE IF \E j \in 1..Len(ss) : ss[j] = {} THEN "no"
       ELSE LET sg == [j \in 1..Len(ss) |-> One(ss[j])]
            IN IF ~InOrder(sg, ms.keys, dig) THEN "no" ELSE IF \E j \in 1..Len(sg) : HighS(sg[j]) THEN "open" ELSE "yes"
InputVerdict(p, t, i, u, k, seg) ==
    LET dig == SigHash(p, t, i, k, HexBytes(u.amt), seg)
        ht == SigAll(p)
        x == t.ins[i]
        ps == Pushes(x.script, 0, <<>>)
    IN CASE k.k = "pkh" -> IF t.wit[i] # <<>> \/ ps = {} THEN "no"
                           ELSE OneKey(One(ps), IF p.drv = "zen" THEN <<>> ELSE At(k.lock, 3, 20), dig, ht)
         [] k.k = "nested" -> IF x.script # <<22>> \o k.redeem \/ HASH160(k.redeem) # At(k.lock, 2, 20) THEN "no"
                              ELSE OneKey(t.wit[i], Drop(k.redeem, 2), dig, ht)
         [] k.k = "native" -> IF x.script # <<>> THEN "no" ELSE OneKey(t.wit[i], Drop(k.lock, 2), dig, ht)
         [] k.k = "multi" -> IF seg THEN IF x.script # <<34, 0, 32>> \o SHA256(k.redeem) THEN "no" ELSE MultiItems(t.wit[i], k.redeem, dig, ht)
                             ELSE IF t.wit[i] # <<>> \/ ps = {} THEN "no" ELSE MultiItems(One(ps), k.redeem, dig, ht)
(* the legacy driver reads redeem scripts from the transaction *)
OldUn(t, un) == [i \in 1..Len(un) |-> IF i > Len(t.ins) THEN un[i]
                                      ELSE [un[i] EXCEPT !.redeem = IF t.ins[i].script = <<>> THEN "" ELSE ToHex(Tail(t.ins[i].script))]]
Verdict(p, txb, given, seg) ==
    LET ts == ParseTx(txb)
        un == IF Old(p) /\ ts # {} THEN OldUn(One(ts), given) ELSE given
        ks == Kinds(p, un)
    IN IF ts = {} THEN "no"
       ELSE LET t == One(ts)
                anyw == \E i \in 1..Len(un) : Witnessed(ks[i], seg)
            IN IF ~VerOK(p, t) \/ Len(un) # Len(t.ins) THEN "no"
               ELSE IF \E i \in 1..Len(un) : ~Usable(p, un[i], ks[i], seg) THEN "no"
               ELSE IF t.seg # anyw \/ (anyw /\ ~seg) THEN "no"
               ELSE Worst([i \in 1..Len(un) |-> InputVerdict(p, t, i, un[i], ks[i], seg)])

----------------------------------------------------------------------------
(* Multi-signature addresses *)
MsScript(m, keys) == <<80 + m>> \o Cat([i \in 1..Len(keys) |-> <<Len(keys[i])>> \o keys[i]]) \o <<80 + Len(keys), 174>>
MsCreate(p, m, keys, seg) ==
    IF m < 1 \/ m > Len(keys) \/ Len(keys) > 16 \/ \E i \in 1..Len(keys) : Len(keys[i]) \notin {33, 65} THEN {}
    ELSE LET r == MsScript(m, keys)
         IN IF Len(r) > 520 THEN {}
            ELSE LET h == HASH160(IF seg THEN <<0, 32>> \o SHA256(r) ELSE r)
                 IN {[addr |-> BytesStr(B58Check(p.sh \o h, "doubleSHA256", B58)), redeem |-> ToHex(r)]}
=============================================================================
