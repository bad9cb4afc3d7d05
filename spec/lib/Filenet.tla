------------------------------ MODULE Filenet ------------------------------
(* Filenet transfers: sender, number of receivers, total, time, receivers    *)
(* in the order of their address texts.                                      *)
EXTENDS Bigbang

FnAddr(t) ==                \* the address is Base58 of the hexadecimal text of 20 bytes
    IF ~InAlpha(t, B58) THEN {}
    ELSE LET x == UnBase58(t, B58) IN IF Len(x) = 40 /\ IsHexText(x) THEN {UnHexText(x)} ELSE {}
FnText(b) == BytesStr(Base58(StrBytes(ToHex(b)), B58))
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> \/ ~LexLess(x.at, s[Len(s)].at) THEN s \o <<x>>
                ELSE Insert(Take(s, Len(s) - 1), x) \o <<s[Len(s)]>>
FnSorted(s) == FoldLeft(Insert, <<>>, s)
FnRow(x) == x.to \o x.amt
FnRows(b) == [j \in 1..(Len(b) \div 28) |-> At(b, 28 * (j - 1), 28)]
(* receivers with one and the same address text may come in any order *)
FnSameUpTo(rows, want) ==
    /\ Len(rows) = Len(want)
    /\ \A j \in 1..Len(want) :
          LET same == {k \in 1..Len(want) : want[k].at = want[j].at}
          IN Cardinality({k \in same : rows[k] = FnRow(want[j])}) = Cardinality({k \in same : FnRow(want[k]) = FnRow(want[j])})

FnCreate(q, e) ==
    LET from == FnAddr(HexBytes(q.from))
        tos == AllOf([j \in 1..Len(q.outs) |-> FnAddr(HexBytes(q.outs[j].to))])
        total == FoldLeft(LAMBDA a, x : BigAdd(a, HexBytes(x.amt)), <<>>, q.outs)
    IN IF from = {} \/ tos = {} \/ Len(q.outs) = 0 \/ ~Fits(total, 8) \/ \E j \in 1..Len(q.outs) : Strip(HexBytes(q.outs[j].amt)) = <<>> THEN {}
       ELSE LET want == FnSorted([j \in 1..Len(q.outs) |-> [at |-> HexBytes(q.outs[j].to), to |-> One(tos)[j], amt |-> LE(HexBytes(q.outs[j].amt), 8)]])
                h == HexOfLen(e.tx, 44 + 28 * Len(q.outs))
                seen == IF h = {} THEN Zeros(8) ELSE At(One(h), 36, 8)
                time == IF InSpan(Rev(seen), e, 1) THEN seen ELSE Zeros(8)
                rows == IF h = {} THEN <<>> ELSE FnRows(Drop(One(h), 44))
                b == One(from) \o IntLE(Len(q.outs), 8) \o LE(total, 8) \o time
                     \o (IF FnSameUpTo(rows, want) THEN Cat(rows) ELSE Cat(Map(FnRow, want)))
            IN {[tx |-> ToHex(b), msgs |-> <<ToHex(SHA256(b))>>]}

FnJson(b, sig) ==
    LET rows == FnRows(Drop(b, 44))
        Le(x) == DecStr(Rev(x))
    IN CatStr(<<"{\"txid\":\"", ToHex(SHA256(b)), "\",\"from\":\"", FnText(Take(b, 20)), "\",\"tocount\":", Le(At(b, 20, 8)),
                ",\"value\":", Le(At(b, 28, 8)), ",\"timestamp\":", Le(At(b, 36, 8)), ",\"transferdetails\":[",
                JoinStr([j \in 1..Len(rows) |-> CatStr(<<"{\"to\":\"", FnText(Take(rows[j], 20)), "\",\"value\":", Le(Drop(rows[j], 20)), "}">>)], ","),
                "],\"sign\":\"", sig, "\"}">>)
FnCombine(e) ==
    LET tb == HexOf(e.tx)
        one == Len(e.sp) = 1
        sg == IF one THEN HexOfLen(e.sp[1].sig, 64) ELSE {}
        pk == IF one THEN HexOf(e.sp[1].pub) ELSE {}
        no == [v |-> "no", out |-> ""]
    IN IF tb = {} \/ sg = {} \/ pk = {} THEN no
       ELSE LET b == One(tb) IN
            IF Len(b) < 44 \/ (Len(b) - 44) % 28 # 0 THEN no
            ELSE IF At(b, 20, 8) # IntLE((Len(b) - 44) \div 28, 8) THEN no
            ELSE IF ~EcdsaOK("k1", One(pk), SHA256(b), One(sg)) THEN no
            ELSE [v |-> IF HighS(One(sg)) \/ Len(One(pk)) # 33 THEN "open" ELSE "yes", out |-> FnJson(b, e.sp[1].sig)]
=============================================================================
