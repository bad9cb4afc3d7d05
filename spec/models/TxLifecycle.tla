---------------------------- MODULE TxLifecycle ----------------------------
(* Design model of the life of a transaction: the owners of the spent outputs *)
(* see the unsigned body, sign the digest of their input, the signatures are  *)
(* assembled; between assembly and verification an adversary who sees         *)
(* everything, owns a key of its own and knows owner signatures over another  *)
(* body may alter any part.  Signatures are symbolic: <<key, digest>>.        *)
(* The verifier is the predicate Valid, the same in shape as Btc!Verdict.     *)
EXTENDS Naturals, Sequences, FiniteSets, Json, Prims, TLC
CONSTANTS NIn, MaxTamper, Kinds, Emitting
VARIABLES kinds, body, un, scr, signed, tamp, phase
vars == <<kinds, body, un, scr, signed, tamp, phase>>

Ins == 1..NIn
Evil == <<0, 0>>
Keys(j, k) == IF k = "multi" THEN <<<<j, 1>>, <<j, 2>>, <<j, 3>>>> ELSE <<<<j, 1>>>>   \* keys that control input j
Need(k) == IF k = "multi" THEN 2 ELSE 1
CommitsAmount(k) == k # "pkh"

(* what a signature on input j covers: the whole body, the input's position, *)
(* the script that locks it and, for some kinds, its amount                  *)
Digest(b, j, u, k) == [body |-> b, pos |-> j, script |-> u.script, amt |-> IF CommitsAmount(k) THEN u.amt ELSE 0]
Body0 == [ins |-> [j \in Ins |-> j], outs |-> 0, lock |-> 0]
Other == [Body0 EXCEPT !.outs = 9]                   \* another body the owners signed once
Un0(ks) == [j \in Ins |-> [script |-> Keys(j, ks[j]), amt |-> 1]]

Init == /\ kinds \in [Ins -> Kinds]
        /\ body = Body0 /\ un = Un0(kinds)
        /\ scr = [j \in Ins |-> <<>>]
        /\ signed = {<<k, Digest(Other, j, un[j], kinds[j])>> : j \in Ins, k \in {<<x, y>> : x \in Ins, y \in 1..3}}
        /\ tamp = <<>> /\ phase = "empty"
(* every owner whose signature is needed signs; the first m keys of each input *)
Sign == /\ phase = "empty" /\ phase' = "signed"
        /\ signed' = signed \cup {<<Keys(j, kinds[j])[x], Digest(body, j, un[j], kinds[j])>> : j \in Ins, x \in 1..1}
                            \cup {<<Keys(j, kinds[j])[x], Digest(body, j, un[j], kinds[j])>> : j \in {y \in Ins : kinds[y] = "multi"}, x \in {2}}
        /\ scr' = [j \in Ins |-> [x \in 1..Need(kinds[j]) |-> [key |-> Keys(j, kinds[j])[x], sig |-> <<Keys(j, kinds[j])[x], Digest(body, j, un[j], kinds[j])>>]]]
        /\ UNCHANGED <<kinds, body, un, tamp>>
(* signatures the adversary can present: everything ever signed, its own on anything, and junk *)
Avail == signed \cup {<<Evil, Digest(body, j, un[j], kinds[j])>> : j \in Ins} \cup {<<<<0, 1>>, Digest([Body0 EXCEPT !.outs = 99], 1, un[1], kinds[1])>>}
Swapped(f, a, b) == [f EXCEPT ![a] = f[b], ![b] = f[a]]
Alter ==
    /\ phase = "signed" /\ Len(tamp) < MaxTamper
    /\ \/ \E x \in 1..2 : body' = [body EXCEPT !.outs = x] /\ tamp' = Append(tamp, "out") /\ UNCHANGED <<un, scr>>
       \/ body' = [body EXCEPT !.lock = 1] /\ tamp' = Append(tamp, "lock") /\ UNCHANGED <<un, scr>>
       \/ \E j \in Ins : body' = [body EXCEPT !.ins[j] = 8] /\ tamp' = Append(tamp, "in") /\ UNCHANGED <<un, scr>>
       \/ NIn = 2 /\ body' = [body EXCEPT !.ins = Swapped(@, 1, 2)] /\ un' = Swapped(un, 1, 2) /\ scr' = Swapped(scr, 1, 2)
          /\ kinds[1] = kinds[2] /\ tamp' = Append(tamp, "inswap")
       \/ \E j \in Ins : un' = [un EXCEPT ![j].amt = 2] /\ tamp' = Append(tamp, "amt") /\ UNCHANGED <<body, scr>>
       \/ \E j \in Ins, x \in Ins : un' = [un EXCEPT ![j].script = Keys(x, kinds[j])] /\ tamp' = Append(tamp, "script") /\ UNCHANGED <<body, scr>>
       \/ \E j \in Ins, s \in Avail : \E x \in 1..Len(scr[j]) : scr' = [scr EXCEPT ![j][x].sig = s] /\ tamp' = Append(tamp, "sig") /\ UNCHANGED <<body, un>>
       \/ \E j \in Ins, s \in Avail : \E x \in 1..Len(scr[j]) : scr' = [scr EXCEPT ![j][x] = [key |-> s[1], sig |-> s]] /\ tamp' = Append(tamp, "sigkey") /\ UNCHANGED <<body, un>>
       \/ \E j \in Ins : Len(scr[j]) > 0 /\ scr' = [scr EXCEPT ![j] = Tail(@)] /\ tamp' = Append(tamp, "drop") /\ UNCHANGED <<body, un>>
       \/ \E j \in Ins : Len(scr[j]) = 2 /\ \E x \in {<<1, 1>>, <<2, 2>>, <<2, 1>>} :
                scr' = [scr EXCEPT ![j] = <<@[x[1]], @[x[2]]>>] /\ tamp' = Append(tamp, "dup") /\ UNCHANGED <<body, un>>
    /\ UNCHANGED <<kinds, signed, phase>>
Next == Sign \/ Alter
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
SigValid(s, key, dig) == s[1] = key /\ s[2] = dig
RECURSIVE InOrder(_, _, _)
InOrder(sigs, keys, dig) ==
    IF sigs = <<>> THEN TRUE
    ELSE IF Len(keys) < Len(sigs) THEN FALSE
    ELSE IF SigValid(sigs[1].sig, keys[1], dig) THEN InOrder(Tail(sigs), Tail(keys), dig) ELSE InOrder(sigs, Tail(keys), dig)
InputValid(j) ==
    LET dig == Digest(body, j, un[j], kinds[j])
    IN IF kinds[j] = "multi" THEN Len(scr[j]) = 2 /\ InOrder(scr[j], un[j].script, dig)
       ELSE Len(scr[j]) = 1 /\ scr[j][1].key = un[j].script[1] /\ SigValid(scr[j][1].sig, scr[j][1].key, dig)
Valid == phase = "signed" /\ \A j \in Ins : InputValid(j)

(* P10: what verifies was signed, for this body and these outputs, by enough  *)
(* distinct keys of each spent output                                         *)
Sound == Valid => \A j \in Ins : Cardinality({x \in 1..Len(un[j].script) : <<un[j].script[x], Digest(body, j, un[j], kinds[j])>> \in signed}) >= Need(kinds[j])
(* P09: what was assembled and left alone verifies *)
Completeness == (phase = "signed" /\ tamp = <<>>) => Valid
(* P08: digests of different inputs, bodies or (where covered) amounts differ *)
Separate == \A a, b \in Ins : a # b => Digest(body, a, un[a], kinds[a]) # Digest(body, b, un[b], kinds[b])
(* P10: no alteration of the body survives *)
BodyFixed == Valid => body = Body0 \/ body = Other

----------------------------------------------------------------------------
(* Scenarios for the replay: input kinds and the alterations of the signed    *)
(* transaction or unlock data, in concrete form                               *)
Cuts == {"none", "in.txid", "in.vout", "in.seq", "in.swap", "out.amt", "out.script", "out.swap", "out.add", "out.drop", "lock", "ver",
         "sig.bit", "sig.otherinput", "sig.othertx", "sig.otherkey", "sig.evil", "sig.type", "sig.nonder", "sig.highs", "sig.drop", "sig.dup",
         "sig.swap", "key.other", "redeem.tx", "un.amt", "un.lock", "un.redeem", "un.swap", "un.missing", "un.extra", "un.type", "seg", "byte", "trunc", "append"}
ScnKinds == UNION {[1..n -> {"pkh", "nested", "native", "multi"}] : n \in 1..2}
Emitted == IF Emitting
           THEN \A k \in ScnKinds, c \in Cuts : Emit(StrCat("SCN ", ToJson([kinds |-> k, cut |-> c])))
           ELSE TRUE
ASSUME Emitted
=============================================================================
