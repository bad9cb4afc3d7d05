-------------------------------- MODULE T_HD --------------------------------
(* Recorded calls of owkeychain (P04, P05, P06).  The session state is the    *)
(* sequence of extended keys obtained so far, as the specification knows them.*)
(* Every operation that yields a key is recorded with the text of that key,   *)
(* which determines all its fields.                                           *)
EXTENDS HD
VARIABLES sc, i, st
Start == <<>>

(* outcome of an operation yielding a key: want = {} means refused *)
Yields(s, e, want, extra) ==
    IF want = {} THEN [ok |-> e.panic = "" /\ ~e.ok /\ e.txt = "", st |-> s, exp |-> "refused"]
    ELSE LET k == CHOOSE x \in want : TRUE
         IN [ok |-> e.panic = "" /\ e.ok /\ StrBytes(e.txt) = KeyText(k) /\ extra,
             st |-> Append(s, k), exp |-> BytesStr(KeyText(k))]
Gives(s, e, want) == [ok |-> e.panic = "" /\ e.out = want, st |-> s, exp |-> want]
I4(e) == HexBytes(e.idx)

Judge(s, e) ==
    CASE e.op = "root" -> Yields(s, e, Root(HexBytes(e.seed), e.curve), TRUE)
      [] e.op = "new" -> Yields(s, e, {[curve |-> e.curve, prv |-> e.prv, key |-> HexBytes(e.key), cc |-> HexBytes(e.cc),
                                        fp |-> HexBytes(e.fp), depth |-> e.depth, idx |-> I4(e)]}, TRUE)
      [] e.op = "prv" -> Yields(s, e, PrvChild(s[e.from], I4(e)), TRUE)
      [] e.op = "pub" -> Yields(s, e, PubChild(s[e.from], I4(e)), Agree(s[e.from], I4(e)))
      [] e.op = "neuter" -> Yields(s, e, {Neuter(s[e.from])}, TRUE)
      [] e.op = "same" -> Yields(s, e, {s[e.from]}, TRUE)
      [] e.op = "path" -> Yields(s, e, AbsPath(HexBytes(e.seed), HexBytes(e.path), e.curve), TRUE)
      [] e.op = "rel" -> Yields(s, e, RelPath(s[e.from], HexBytes(e.path)), TRUE)
      [] e.op = "coinpub" -> Yields(s, e, CoinPub(HexBytes(e.seed), e.coin), TRUE)
      [] e.op = "decode" -> Yields(s, e, KeyOfText(HexBytes(e.t)), TRUE)
      [] e.op = "pubbytes" -> Gives(s, e, ToHex(PubBytes(s[e.from])))
      [] e.op = "upub" -> Gives(s, e, ToHex(Decompress(Grp(s[e.from].curve), PubBytes(s[e.from]))))
      [] e.op = "prvbytes" -> Must(e.panic = "" /\ IF s[e.from].prv THEN e.ok /\ e.out = ToHex(s[e.from].key) ELSE ~e.ok /\ e.out = "",
                                   s, IF s[e.from].prv THEN ToHex(s[e.from].key) ELSE "refused")
      [] e.op = "coinprv" -> LET w == CoinPrv(HexBytes(e.seed), e.coin, I4(e))
                             IN Must(e.panic = "" /\ IF w = {} THEN ~e.ok /\ e.out = "" ELSE e.ok /\ \E k \in w : e.out = ToHex(k.key), s, "coin key")
      [] e.op = "share" -> LET w == KeyOfText(HexBytes(e.t))
                               txt == IF w = {} THEN "" ELSE LET k == Neuter(CHOOSE x \in w : TRUE)
                                                            IN BytesStr(ShareText(k.key, k.cc, CurveNo(k.curve)))
                           IN Must(e.panic = "" /\ e.ok = (w # {}) /\ e.out = txt, s, txt)
      [] e.op = "shareenc" -> LET txt == BytesStr(ShareText(HexBytes(e.pub), HexBytes(e.cc), HexBytes(e.curve)))
                              IN Must(e.panic = "" /\ e.out = txt, s, txt)
      [] e.op = "sharedec" -> LET w == ShareOfText(HexBytes(e.t))
                              IN Must(e.panic = "" /\ IF w = {} THEN ~e.ok
                                                      ELSE e.ok /\ {[pub |-> HexBytes(e.pub), cc |-> HexBytes(e.cc), curve |-> HexBytes(e.curve)]} = w,
                                      s, IF w = {} THEN "refused" ELSE "accepted")
INSTANCE TraceBase
=============================================================================
