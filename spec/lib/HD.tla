--------------------------------- MODULE HD ---------------------------------
(* Hierarchical deterministic keys (owkeychain).                              *)
(* An extended key is a record                                                *)
(*   [curve, prv, key, cc, fp, depth, idx]                                    *)
(* Partial operations return {} (refused) or a singleton set.                 *)
EXTENDS Addr

CurveName == <<"k1", "r1", "sm2", "edn", "ed", "x", "c25", "blsn", "blsa", "pasta">>
Curves == {"k1", "r1", "sm2", "ed", "x", "c25", "blsn", "blsa", "pasta"}
CurveNo(c) == <<236, 192, 0, (CHOOSE k \in 1..10 : CurveName[k] = c) - 1>>
EdLike == {"ed", "x", "c25"}
BlsLike == {"blsn", "blsa"}
Grp(c) == IF c \in EdLike THEN "ed" ELSE IF c \in BlsLike THEN "bls" ELSE c
(* modulus of private child addition *)
Modulus(c) == IF c = "pasta" THEN Rep(255, 32) ELSE CurveOrder(Grp(c))
PubLen(c) == IF c \in EdLike THEN 32 ELSE IF c \in BlsLike THEN 48 ELSE 33

PubBytes(k) == IF k.prv THEN PubOf(Grp(k.curve), k.key) ELSE k.key
Neuter(k) == [k EXCEPT !.prv = FALSE, !.key = PubBytes(k)]
Hardened(i) == i[1] >= 128
Clip(x) == IF x > 114 THEN 114 ELSE x             \* first byte below the group order's 0x73

Root(seed, c) ==
    IF Len(seed) < 16 \/ Len(seed) > 64 THEN {}
    ELSE LET h == SHA512(seed)
             a == [j \in 1..32 |-> CASE c \in EdLike /\ j = 1 -> (h[1] \div 8) * 8
                                     [] c \in EdLike /\ j = 32 -> 64 + (h[32] % 64)
                                     [] c \in BlsLike /\ j = 1 -> Clip(h[1])
                                     [] c = "pasta" /\ j = 1 -> h[1] % 4
                                     [] OTHER -> h[j]]
         IN {[curve |-> c, prv |-> TRUE, key |-> a, cc |-> Drop(h, 32), fp |-> Zeros(4), depth |-> 0, idx |-> Zeros(4)]}

Mix(k, i) ==
    LET data == IF Hardened(i) THEN k.key ELSE PubBytes(k)
        h == HMACSHA512(k.cc, (IF Len(data) = 32 THEN <<0>> ELSE <<>>) \o data \o i)
    IN CASE k.curve \in BlsLike -> <<Clip(h[1])>> \o Tail(h)
         [] k.curve = "pasta" -> <<0, 0, 0>> \o Drop(h, 3)
         [] OTHER -> h
Child(k, i, prv, key, h) == [curve |-> k.curve, prv |-> prv, key |-> key, cc |-> Drop(h, 32),
                             fp |-> Take(HASH160(PubBytes(k)), 4), depth |-> k.depth + 1, idx |-> i]
Tweak(k, h) == IF k.curve \in EdLike THEN BigMulInt(Rev(Take(h, 28)), 8) ELSE Take(h, 32)   \* big endian
TweakOK(k, h) == k.curve \in EdLike \/ (BigCmp(Take(h, 32), Modulus(k.curve)) < 0 /\ Strip(Take(h, 32)) # <<>>)

PrvChild(k, i) ==
    IF ~k.prv \/ k.depth = 255 THEN {}
    ELSE LET h == Mix(k, i)
             own == IF k.curve \in EdLike THEN Rev(k.key) ELSE k.key
             sum == BigAdd(Tweak(k, h), own)
             red == BigMod(sum, Modulus(k.curve))
         IN IF ~TweakOK(k, h) \/ red = <<>> THEN {}
            ELSE {Child(k, i, TRUE, IF k.curve \in EdLike THEN LE(sum, 32) ELSE BE(red, 32), h)}

(* from a public key alone *)
PubChildOfPub(k, i) ==
    IF Hardened(i) \/ k.depth = 255 THEN {}
    ELSE LET h == Mix(k, i)
             tw == IF k.curve \in EdLike THEN LE(Tweak(k, h), 32) ELSE Tweak(k, h)
             p == PointAddG(Grp(k.curve), k.key, tw)
         IN IF ~TweakOK(k, h) \/ p = <<>> THEN {} ELSE {Child(k, i, FALSE, p, h)}
PubChild(k, i) == IF k.prv THEN {Neuter(x) : x \in PrvChild(k, i)} ELSE PubChildOfPub(k, i)

(* the two derivations agree (checked on every replayed derivation) *)
Agree(k, i) == (k.prv /\ ~Hardened(i)) => PubChild(k, i) = PubChildOfPub(Neuter(k), i)

------------------------------------------------------------------------------
(* derivation paths *)
RECURSIVE SplitAt(_, _)
SplitAt(t, c) ==                     \* pieces between separators
    LET js == {j \in 1..Len(t) : t[j] = c}
    IN IF js = {} THEN <<t>>
       ELSE LET j == CHOOSE x \in js : \A y \in js : x <= y
            IN <<SubSeq(t, 1, j - 1)>> \o SplitAt(SubSeq(t, j + 1, Len(t)), c)
NoSpaces(t) == SelectSeq(t, LAMBDA x : x # 32)
IsNum(t) == t # <<>> /\ \A j \in 1..Len(t) : t[j] \in 48..57
NumOf(t) == Convert([j \in 1..Len(t) |-> t[j] - 48], 10, 256)
ElemIdx(t) ==                        \* {} or {child number}
    IF t # <<>> /\ t[Len(t)] = 39
    THEN LET d == SubSeq(t, 1, Len(t) - 1)
         IN IF ~IsNum(d) THEN {} ELSE IF ~Fits(NumOf(d), 4) THEN {}
            ELSE LET b == PadL(NumOf(d), 4) IN IF b[1] >= 128 THEN {} ELSE {<<b[1] + 128>> \o Tail(b)}
    ELSE IF ~IsNum(t) THEN {} ELSE IF ~Fits(NumOf(t), 4) THEN {} ELSE {PadL(NumOf(t), 4)}
RECURSIVE Walk(_, _, _)
Walk(ks, elems, prv) ==
    IF elems = <<>> \/ ks = {} THEN ks
    ELSE LET k == CHOOSE x \in ks : TRUE
             ix == ElemIdx(elems[1])
         IN IF ix = {} THEN {}
            ELSE LET i == CHOOSE x \in ix : TRUE
                 IN Walk(IF prv THEN PrvChild(k, i) ELSE PubChild(k, i), Tail(elems), prv)
AbsPath(seed, path, c) ==
    LET p == NoSpaces(path)
    IN IF p \in {<<>>, <<109>>, <<47>>} THEN Root(seed, c)
       ELSE IF Len(p) < 2 \/ Take(p, 2) # <<109, 47>> THEN {}
       ELSE Walk(Root(seed, c), SplitAt(Drop(p, 2), 47), TRUE)
RelPath(k, path) ==
    LET p == NoSpaces(path)
    IN IF p = <<>> \/ p[1] # 47 THEN {} ELSE Walk({k}, SplitAt(Tail(p), 47), FALSE)
CoinPath == StrBytes("m/44'/88'")
CoinPub(seed, n) == LET r == AbsPath(seed, CoinPath, "k1")
                    IN IF r = {} THEN {} ELSE PubChild(CHOOSE k \in r : TRUE, IntBE(n, 4))
CoinPrv(seed, n, i) ==
    LET r == AbsPath(seed, CoinPath, "k1")
    IN IF r = {} THEN {}
       ELSE LET q == PrvChild(CHOOSE k \in r : TRUE, IntBE(n, 4))
            IN IF q = {} THEN {} ELSE PrvChild(CHOOSE k \in q : TRUE, i)

------------------------------------------------------------------------------
(* texts *)
PrefixOf(prv, c) == IF prv THEN <<7, 168, 16, 12, 40>>
                    ELSE IF c \in BlsLike THEN <<62, 0, 250, 234, 105>>
                    ELSE <<7, 168, 16, 49, 162>>
KeyText(k) == B58Check(PrefixOf(k.prv, k.curve) \o CurveNo(k.curve) \o <<k.depth>> \o k.fp \o k.idx \o k.cc
                       \o (IF k.prv \/ k.curve \in EdLike THEN <<0>> ELSE <<>>) \o k.key, "doubleSHA256", B58)
KeyOfText(t) ==                      \* {} or {key}: the key whose text is t
    LET ps == B58Payload(t, "doubleSHA256", B58)
    IN IF ps = {} THEN {}
       ELSE LET b == CHOOSE x \in ps : TRUE
                cs == {c \in Curves : At(b, 5, 4) = CurveNo(c)}
            IN IF Len(b) < 50 + 32 \/ cs = {} THEN {}
               ELSE LET c == CHOOSE x \in cs : TRUE
                        cand(prv) ==
                          LET z == prv \/ c \in EdLike
                          IN [curve |-> c, prv |-> prv, depth |-> b[10], fp |-> At(b, 10, 4), idx |-> At(b, 14, 4),
                              cc |-> At(b, 18, 32), key |-> Drop(b, IF z THEN 51 ELSE 50)]
                    IN {k \in {cand(TRUE), cand(FALSE)} :
                          Len(k.key) = (IF k.prv THEN 32 ELSE PubLen(c)) /\ KeyText(k) = t}

(* shares of multi-signature wallets: keys of 32 or 33 bytes *)
SharePrefix == <<8, 97, 36, 150, 18, 174, 92>>
ShareBytes(pub, cc, c) == SharePrefix \o (IF Len(pub) = 32 THEN <<0>> ELSE <<>>) \o pub \o cc \o c
ShareText(pub, cc, c) == Base58(ShareBytes(pub, cc, c), B58)
ShareOfText(t) ==
    IF ~InAlpha(t, B58) THEN {}
    ELSE LET b == UnBase58(t, B58)
         IN IF Len(b) # 76 THEN {}
            ELSE IF Take(b, 7) # SharePrefix \/ Take(t, 7) # StrBytes("owchain") THEN {}
            ELSE {[pub |-> IF b[8] = 0 THEN At(b, 8, 32) ELSE At(b, 7, 33), cc |-> At(b, 40, 32), curve |-> Drop(b, 72)]}
=============================================================================
