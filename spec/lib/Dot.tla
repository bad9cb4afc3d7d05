--------------------------------- MODULE Dot ---------------------------------
(* Polkadot / Kusama balance transfers.  The unsigned text is a JSON record  *)
(* of the request; the message is the SCALE-encoded signing payload.         *)
EXTENDS Addr

(* SCALE compact naturals: the two low bits select the width *)
Scale(b) ==
    LET s == Strip(b)
        n == IF Len(s) > 3 THEN 0 ELSE ToInt(s)
    IN IF Len(s) <= 3 /\ n < 64 THEN <<4 * n>>
       ELSE IF Len(s) <= 3 /\ n < 16384 THEN IntLE(4 * n + 1, 2)
       ELSE IF Len(s) < 4 \/ (Len(s) = 4 /\ s[1] < 64) THEN LET x == LE(BigMulInt(s, 4), 4) IN <<x[1] + 2>> \o Tail(x)
       ELSE <<4 * (Len(s) - 4) + 3>> \o Rev(s)
(* mortal era of period 64: low nibble log2(64) - 1, phase above it *)
DotEra(h) == IntLE(5 + 16 * (PadL(h, 1)[1] % 64), 2)

DotReqOK(q) ==
    /\ HexOfLen(q.from, 32) # {} /\ HexOfLen(q.to, 32) # {}
    /\ HexOfLen(q.genesis, 32) # {} /\ HexOfLen(q.block, 32) # {}
    /\ IsHex(q.code) /\ q.code # ""
    /\ Strip(HexBytes(q.amt)) # <<>> /\ Strip(HexBytes(q.height)) # <<>>
DotCall(q) == HexBytes(q.code) \o HexBytes(q.to) \o Scale(HexBytes(q.amt))
DotExtra(q) == DotEra(HexBytes(q.height)) \o Scale(HexBytes(q.nonce)) \o Scale(HexBytes(q.fee))
DotPayload(q) == DotCall(q) \o DotExtra(q) \o LE(HexBytes(q.spec), 4) \o LE(HexBytes(q.txv), 4) \o HexBytes(q.genesis) \o HexBytes(q.block)
Num(h) == DecStr(HexBytes(h))
Q(s) == CatStr(<<"\"", s, "\"">>)
DotText(q) ==
    CatStr(<<"{\"sender_pubkey\":", Q(q.from), ",\"recipient_pubkey\":", Q(q.to), ",\"amount\":", Num(q.amt), ",\"nonce\":", Num(q.nonce),
             ",\"fee\":", Num(q.fee), ",\"block_height\":", Num(q.height), ",\"block_hash\":", Q(q.block), ",\"genesis_hash\":", Q(q.genesis),
             ",\"spec_version\":", Num(q.spec), ",\"txVersion\":", Num(q.txv), "}">>)
DotCreate(q) == IF ~DotReqOK(q) THEN {} ELSE {[tx |-> DotText(q), msgs |-> <<ToHex(DotPayload(q))>>]}

DotReleased(q, sig) ==
    LET body == <<132, 0>> \o HexBytes(q.from) \o <<0>> \o sig \o DotExtra(q) \o DotCall(q)
    IN StrCat("0x", ToHex(Scale(IntBE(Len(body), 4)) \o body))
DotCombine(e, made) ==
    LET sg == IF Len(e.sp) = 1 THEN HexOfLen(e.sp[1].sig, 64) ELSE {}
        At0(m) == [m.q EXCEPT !.code = e.x.code]
        Valid(m) == sg # {} /\ DotReqOK(At0(m)) /\ EdOK(HexBytes(m.q.from), DotPayload(At0(m)), One(sg))
        its == {m \in made : m.tx = e.tx}
    IN IF its # {} THEN LET m == CHOOSE m \in its : TRUE
                        IN IF Valid(m) THEN [v |-> "yes", out |-> DotReleased(At0(m), One(sg))] ELSE [v |-> "no", out |-> ""]
       ELSE IF \E m \in made : Valid(m) /\ e.out = DotReleased(At0(m), One(sg)) THEN [v |-> "open", out |-> e.out]
       ELSE [v |-> "no", out |-> ""]
=============================================================================
