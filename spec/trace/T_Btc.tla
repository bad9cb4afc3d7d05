------------------------------- MODULE T_Btc -------------------------------
(* Recorded calls of the Bitcoin-family drivers (P07-P13).  The session state *)
(* is the network profile and the transactions the session has made: unsigned,*)
(* signed, and what the specification knows about them.                       *)
EXTENDS Btc
VARIABLES sc, i, st
Start == [p |-> <<>>]

Exact(s, e, want) ==      \* partial result: the bytes, or refused without output
    IF want = {} THEN Must(e.panic = "" /\ ~e.ok /\ e.out = "", s, "refused")
    ELSE LET w == ToHex(One(want)) IN Must(e.panic = "" /\ e.ok /\ e.out = w, s, w)
Hx(b) == ToHex(b)
SameSeq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]

DigestsOK(p, e, w) ==
    /\ e.ok /\ Len(e.out) = Len(w)
    /\ \A j \in 1..Len(w) : /\ e.out[j].hash = w[j].hash
                            /\ Old(p) \/ /\ e.out[j].n = w[j].n /\ e.out[j].addr = w[j].addr
                                         /\ SameSeq(e.out[j].st, w[j].st) /\ SameSeq(e.out[j].keys, w[j].keys)

ValidPrv(k) == Len(k) = 32 /\ Strip(k) # <<>> /\ BigCmp(k, CurveOrder("k1")) < 0
SignOK(e) ==
    LET h == HexOf(e.hash)
        k == HexBytes(e.prv)
    IN IF h # {} /\ Len(One(h)) = 32 /\ ValidPrv(k)
       THEN /\ e.ok /\ StrLen(e.sig) = 128 /\ e.pub = Hx(PubOf("k1", k))
            /\ EcdsaOK("k1", PubOf("k1", k), One(h), HexBytes(e.sig)) /\ ~HighS(HexBytes(e.sig))
       ELSE ~e.ok /\ e.sig = ""

(* a decoded transaction reports what the bytes say; knd = kinds of the      *)
(* inputs when the session made the transaction itself, else <<>>             *)
KindNo(k) == CASE k = "none" -> 0 [] k = "pkh" -> 1 [] k = "nested" -> 2 [] k = "native" -> 3 [] k = "multi" -> 4
DecodeOK(p, e) ==
    LET t0 == ParseTx(HexBytes(e.tx))
        \* a length written longer than needed may be refused or read; as: the transaction it stands for
        loose == t0 = {} /\ e.as # ""
        t == IF loose THEN ParseTx(HexBytes(e.as)) ELSE t0
        own == e.kinds # <<>> /\ ~(Old(p) /\ \E j \in 1..Len(e.kinds) : e.kinds[j] = "multi")
    IN IF t = {} \/ ~VerOK(p, One(t)) THEN ~e.ok
       ELSE IF ~e.ok THEN ~own
       ELSE LET x == One(t)
            IN /\ e.ver = Hx(x.ver) /\ e.lock = Hx(x.lock) /\ e.wit = x.seg
               /\ Len(e.vins) = Len(x.ins) /\ e.nout = Len(x.outs)
               /\ \A j \in 1..Len(x.ins) : /\ e.vins[j].txid = Hx(Rev(x.ins[j].txid)) /\ e.vins[j].vout = Hx(Rev(x.ins[j].vout))
                                           /\ own /\ ~Old(p) => e.vins[j].typ = KindNo(e.kinds[j])

(* the legacy driver's signing in one step: a valid transaction that spends  *)
(* and pays what the unsigned one does                                       *)
DirectOK(p, e) ==
    LET q == [p EXCEPT !.drv = "btc"]
        ks == Kinds(p, e.un)
        fine == /\ IsHex(e.tx) /\ Digests(p, HexBytes(e.tx), e.un, TRUE) # {}
                /\ \A j \in 1..Len(e.prvs) : ValidPrv(HexBytes(e.prvs[j]))
                /\ OldHs(ks, e.prvs) # {}
        a == One(ParseTx(HexBytes(e.tx)))
        b == ParseTx(HexBytes(e.out))
        Bare(x) == [j \in 1..Len(x.ins) |-> [x.ins[j] EXCEPT !.script = <<>>]]
    IN IF ~fine THEN ~e.ok /\ e.out = ""
       ELSE /\ e.ok /\ IsHex(e.out) /\ b # {}
            /\ One(b).ver = a.ver /\ One(b).lock = a.lock /\ Bare(One(b)) = Bare(a) /\ One(b).outs = a.outs
            /\ Verdict(q, HexBytes(e.out), e.un, TRUE) = "yes"

Judge(s, e) ==
    LET p == s.p IN
    CASE e.op = "profile" ->        \* the network constants the driver exports
           LET w == Networks[e.drv][e.net]
           IN Must(w.pkh = HexBytes(e.pkh) /\ w.sh = HexBytes(e.sh) /\ w.sh2 = HexBytes(e.sh2) /\ w.hrp = e.hrp,
                   [p |-> [drv |-> e.drv, pkh |-> w.pkh, sh |-> w.sh, sh2 |-> w.sh2, hrp |-> w.hrp]], "network constants")
      [] e.op = "create" -> Exact(s, e, Create(p, e))
      [] e.op = "omni" -> Exact(s, e, CreateOmni(p, e))
      [] e.op = "asset" -> Exact(s, e, CreateAsset(p, e))
      [] e.op = "digest" -> LET w == IF IsHex(e.tx) THEN Digests(p, HexBytes(e.tx), e.un, e.seg \/ Old(p)) ELSE {}
                            IN IF w = {} THEN Must(e.panic = "" /\ ~e.ok /\ Len(e.out) = 0, s, "refused")
                               ELSE Must(e.panic = "" /\ DigestsOK(p, e, One(w)), s, ToString(One(w)))
      [] e.op = "sign" -> Must(e.panic = "" /\ SignOK(e), s, "a low-S signature by the key, or refused")
      [] e.op = "direct" -> Must(e.panic = "" /\ DirectOK(p, e), s, "a valid signed transaction, or refused")
      [] e.op = "insert" -> Exact(s, e, IF IsHex(e.tx) THEN Assemble(p, HexBytes(e.tx), e.hs, e.un, e.seg \/ Old(p)) ELSE {})
      [] e.op = "verify" -> LET v == IF IsHex(e.tx) THEN Verdict(p, HexBytes(e.tx), e.un, e.seg \/ Old(p)) ELSE "no"
                            IN Must(e.panic = "" /\ (v = "open" \/ e.out = (v = "yes")), s, v)
      [] e.op = "multi" -> LET w == MsCreate(p, e.m, [j \in 1..Len(e.keys) |-> HexBytes(e.keys[j])], e.seg)
                           IN IF w = {} THEN Must(e.panic = "" /\ ~e.ok /\ e.addr = "" /\ e.redeem = "", s, "refused")
                              ELSE Must(e.panic = "" /\ e.ok /\ e.addr = One(w).addr /\ e.redeem = One(w).redeem, s, One(w).addr)
      [] e.op = "decode" -> Must(e.panic = "" /\ DecodeOK(p, e), s, "fields of the transaction")
INSTANCE TraceBase
=============================================================================
