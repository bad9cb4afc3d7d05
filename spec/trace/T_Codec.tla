------------------------------- MODULE T_Codec ------------------------------
(* Recorded calls of the exported codecs and hashes (P23).                    *)
EXTENDS Text
VARIABLES sc, i, st
Start == [msg |-> <<>>, size |-> 0, salt |-> <<>>]
Pts(x) == x                                   \* code points come as they are
ChkKind(p) == IF p = "hyc" THEN "blake" ELSE IF p = "vsys" THEN "vsys" ELSE "sha"
OwnPrefix == [ela |-> {33}, xrp |-> {0}, wicc |-> {73, 135}]
Took(e, w, what) == e.panic = "" /\ (IF w = {} THEN ~e.ok ELSE e.ok /\ what = One(w))
Judge(s, e) ==
    CASE e.op = "b58enc" -> LET w == B58Text(HexBytes(e.data), e.alpha) IN Must(e.panic = "" /\ e.out = w, s, ToString(w))
      [] e.op = "b58dec" -> LET w == B58Bytes(e.text, e.alpha) IN Must(Took(e, w, HexBytes(e.out)), s, ToString(w))
      [] e.op = "alpha" -> Must(e.panic = "" /\ e.out = e.alpha, s, "the alphabet")
      [] e.op = "chkenc" -> LET w == CheckText(ChkKind(e.pkg), HexBytes(e.pre) \o HexBytes(e.data)) IN Must(e.panic = "" /\ e.out = w, s, ToString(w))
      [] e.op = "chkdec" ->
           LET b == CheckBytes(ChkKind(e.pkg), e.text, BtcAlpha)
               n == IF b = {} THEN 0 ELSE Len(One(b))
               whole == HexBytes(e.pre) \o HexBytes(e.out)
               given == HexBytes(e.fix)
           IN Must(e.panic = "" /\
                   CASE e.kind = "one" -> (IF n = 21 THEN e.ok /\ whole = One(b) /\ Len(HexBytes(e.pre)) = 1 ELSE ~e.ok)
                     [] e.kind = "any" -> (IF n >= 21 THEN e.ok /\ whole = One(b) /\ Len(HexBytes(e.out)) = 20
                                           ELSE IF n = 20 THEN e.ok => whole = One(b) ELSE ~e.ok)
                     [] e.kind = "vsys" -> (IF n = 22 THEN e.ok /\ whole = One(b) \o Sum4("vsys", One(b)) ELSE ~e.ok)
                     [] e.kind = "fix20" -> (IF b # {} /\ n = Len(given) + 20 /\ Take(One(b), Len(given)) = given THEN e.ok /\ given \o HexBytes(e.out) = One(b) ELSE ~e.ok)
                     [] e.kind = "fix" -> (IF b # {} /\ n >= Len(given) /\ Take(One(b), Len(given)) = given THEN e.ok /\ given \o HexBytes(e.out) = One(b) ELSE ~e.ok),
                   s, ToString(b))
      [] e.op = "prog" ->
           LET b == {c \in CheckBytes("sha", e.text, IF e.pkg = "xrp" THEN XrpAlpha ELSE BtcAlpha) : Len(c) = 21 /\ c[1] \in OwnPrefix[e.pkg]}
           IN Must(Took(e, IF e.pkg = "ela" THEN b ELSE {Tail(c) : c \in b}, HexBytes(e.out)), s, ToString(b))
      [] e.op = "sum4" -> LET w == Chk4(e.kind, HexBytes(e.data)) IN Must(e.panic = "" /\ HexBytes(e.out) = w, s, ToHex(w))
      [] e.op = "sumok" ->
           LET b == HexBytes(e.data)
               w == Len(b) >= 4 /\ Chk4(e.kind, Take(b, Len(b) - 4)) = Drop(b, Len(b) - 4)
           IN Must(e.panic = "" /\ e.ok = w, s, ToString(w))
      [] e.op = "datadec" ->
           LET pre == HexBytes(e.pre)
               suf == HexBytes(e.suf)
               ok(c) == /\ Len(c) >= 4 + Len(pre) + Len(suf)
                        /\ Chk4(e.kind, Take(c, Len(c) - 4)) = Drop(c, Len(c) - 4)
                        /\ Take(c, Len(pre)) = pre /\ SubSeq(c, Len(c) - 3 - Len(suf), Len(c) - 4) = suf
               w == {SubSeq(c, Len(pre) + 1, Len(c) - 4 - Len(suf)) : c \in {x \in B58Bytes(e.text, e.alpha) : ok(x)}}
           IN Must(Took(e, w, HexBytes(e.out)), s, ToString(w))
      [] e.op = "cat" -> Must(e.panic = "" /\ HexBytes(e.out) = HexBytes(e.a) \o HexBytes(e.b), s, "both, one after the other")
      [] e.op = "crc32" -> LET w == CRC32(HexBytes(e.data)) IN Must(e.panic = "" /\ HexBytes(e.out) = w, s, ToHex(w))
      [] e.op = "b64enc" -> LET w == Base64Text(HexBytes(e.data), e.alpha) IN Must(e.panic = "" /\ e.out = w, s, ToString(w))
      [] e.op = "b64dec" -> LET w == Base64Bytes(e.text, e.alpha) IN Must(Took(e, w, HexBytes(e.out)), s, ToString(w))
      [] e.op = "b32enc" ->
           LET bad == \E j \in 1..Len(e.data) : e.data[j] > 31
               w == IF bad THEN {} ELSE {B32Text(e.hrp, e.data, IF e.kind = 2 THEN Bech32mConst ELSE Bech32Const)}
           IN Must(Took(e, w, e.out), s, ToString(w))
      [] e.op = "b32dec" ->
           LET w == {x \in B32Parse(e.text) : e.pkg = "btm" => x.kind = 1}
           IN Must(e.panic = "" /\ (IF w = {} THEN ~e.ok ELSE e.ok /\ e.hrp = One(w).hrp /\ e.out = One(w).data /\ e.kind = One(w).kind), s, ToString(w))
      [] e.op = "b32menc" -> LET w == {B32Text(e.hrp, Regroup(HexBytes(e.data), 8, 5), Bech32mConst)} IN Must(Took(e, w, e.out), s, ToString(w))
      [] e.op = "b32mdec" ->
           LET w == UNION {UnFive(x.data) : x \in {y \in B32Parse(e.text) : y.kind = 2 /\ y.hrp = e.hrp}}
           IN Must(Took(e, w, HexBytes(e.out)), s, ToString(w))
      [] e.op = "b32cos" -> LET w == B32Text(e.hrp, Regroup(HexBytes(e.data), 8, 5), Bech32Const) IN Must(e.panic = "" /\ e.out = w, s, ToString(w))
      [] e.op = "b32cosdec" ->     \* prefixes are words of letters
           LET w == UNION {UnFive(x.data) : x \in {y \in B32Parse(e.text) : y.kind = 1}}
               word == \A x \in B32Parse(e.text) : \A j \in 1..Len(x.hrp) : x.hrp[j] \in 97..122
           IN Must(IF word THEN Took(e, w, HexBytes(e.out)) ELSE e.panic = "" /\ (e.ok => w # {} /\ HexBytes(e.out) = One(w)), s, ToString(w))
      [] e.op = "bits" ->
           LET w == IF e.from \notin 1..8 \/ e.to \notin 1..8 THEN {}
                    ELSE IF e.pad THEN {Group(e.data, e.from, e.to)}
                    ELSE Ungroup(e.data, e.from, e.to, IF e.pkg = "btm" THEN 4 ELSE e.from - 1)
           IN Must(Took(e, w, e.out), s, ToString(w))
      [] e.op = "scale" -> LET w == ToHex(Scale(Strip(HexBytes(e.v)))) IN Must(e.panic = "" /\ e.out = w, s, w)
      [] e.op = "new" -> Must(e.panic = "" /\ e.size = e.bits \div 8 /\ e.block = 64, [msg |-> <<>>, size |-> e.bits, salt |-> IF e.salt = "" THEN Zeros(16) ELSE HexBytes(e.salt)], "a fresh hash")
      [] e.op = "write" -> Must(e.panic = "" /\ e.ok /\ e.n = Len(HexBytes(e.data)), [s EXCEPT !.msg = @ \o HexBytes(e.data)], "all of it written")
      [] e.op = "reset" -> Must(e.panic = "", [s EXCEPT !.msg = <<>>], "")
      [] e.op = "sum" -> LET w == HexBytes(e.in) \o BLAKEx(s.msg, s.size, s.salt) IN Must(e.panic = "" /\ HexBytes(e.out) = w, s, ToHex(w))
      [] e.op = "double" -> LET w == BLAKE256(BLAKE256(HexBytes(e.data))) IN Must(e.panic = "" /\ HexBytes(e.out) = w, s, ToHex(w))
INSTANCE TraceBase
=============================================================================
