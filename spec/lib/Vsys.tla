-------------------------------- MODULE Vsys --------------------------------
(* V Systems payments: type, time in ns, amount, fee, fee scale, recipient,  *)
(* empty attachment; signed as they are (XEd25519).                          *)
EXTENDS Addr

VsysAddr(t) ==              \* the 26 bytes of the address
    IF ~InAlpha(t, B58) THEN {}
    ELSE {b \in {UnBase58(t, B58)} : Len(b) = 26 /\ Chk4("blake2b_and_keccak256_first_twenty", Take(b, 22)) = Drop(b, 22)}
(* clock fields are taken from the text and must lie in the recorded interval *)
InSpan(b, e, unit) ==
    /\ BigCmp(b, BigMulInt(IntBE(e.t0, 4), unit)) >= 0
    /\ BigCmp(b, BigMulInt(IntBE(e.t1 + 1, 4), unit)) <= 0
VsysCreate(q, e) ==
    LET to == VsysAddr(HexBytes(q.to))
        h == HexOfLen(e.tx, 55)
        seen == IF h = {} THEN Zeros(8) ELSE At(One(h), 1, 8)
        time == IF InSpan(seen, e, 1000000000) THEN seen ELSE Zeros(8)
    IN IF to = {} \/ q.attach # "" THEN {}
       ELSE LET b == <<q.type>> \o time \o BE(HexBytes(q.amt), 8) \o BE(HexBytes(q.fee), 8) \o BE(HexBytes(q.scale), 2) \o One(to) \o <<0, 0>>
            IN {[tx |-> ToHex(b), msgs |-> <<ToHex(b)>>]}
VsysJson(b, g, p) ==
    CatStr(<<"{\"amount\":", DecStr(At(b, 9, 8)), ",\"attachment\":\"\",\"fee\":", DecStr(At(b, 17, 8)), ",\"feeScale\":", DecStr(At(b, 25, 2)),
             ",\"recipient\":\"", BytesStr(Base58(At(b, 27, 26), B58)), "\",\"senderPublicKey\":\"", BytesStr(Base58(p, B58)),
             "\",\"signature\":\"", BytesStr(Base58(g, B58)), "\",\"timestamp\":", DecStr(At(b, 1, 8)), "}">>)
(* the broadcast form of a transaction, whoever signed it *)
VsysForm(e) ==
    LET sg == IF Len(e.sp) = 1 THEN HexOf(e.sp[1].sig) ELSE {}
        pk == IF Len(e.sp) = 1 THEN HexOf(e.sp[1].pub) ELSE {}
    IN {VsysJson(b, One(sg), One(pk)) : b \in {c \in HexOfLen(e.tx, 55) : sg # {} /\ pk # {} /\ Drop(c, 53) = <<0, 0>>}}
VsysCombine(e) ==
    LET tb == HexOf(e.tx)
        one == Len(e.sp) = 1
        sg == IF one THEN HexOfLen(e.sp[1].sig, 64) ELSE {}
        pk == IF one THEN HexOfLen(e.sp[1].pub, 32) ELSE {}
    IN IF tb = {} \/ sg = {} \/ pk = {} THEN [v |-> "no", out |-> ""]
       ELSE IF ~XEdOK(One(pk), One(tb), One(sg)) THEN [v |-> "no", out |-> ""]
       ELSE LET b == One(tb)
            IN IF Len(b) # 55 \/ Drop(b, 53) # <<0, 0>> THEN [v |-> "open", out |-> "?"]
               ELSE [v |-> "yes", out |-> VsysJson(b, One(sg), One(pk))]
=============================================================================
