------------------------------ MODULE Combine ------------------------------
(* Design model of signature collection outside the Bitcoin family (P20):    *)
(* a transaction has NIn inputs, each controlled by a key; its owner signs    *)
(* the message of that input; the packet (transaction, signatures, public    *)
(* keys) travels to the combiner through an adversary who sees everything,   *)
(* has a key of its own and owner signatures of another transaction.         *)
(* Signatures are symbolic: <<key, tx, pos>>.                                *)
(* Bound = the transaction itself names the key (or its hash) of each input. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, Prims, TLC
CONSTANTS MaxIn, MaxCuts, EmitCuts
VARIABLES n, bound, tx, sp, signed, cuts
vars == <<n, bound, tx, sp, signed, cuts>>

Evil == 0
OtherTx == "other"
Junk == <<99, "junk", 0>>
Owner(i) == i
Sig(k, t, i) == <<k, t, i>>
Honest(m) == [i \in 1..m |-> [sig |-> Sig(Owner(i), "tx", i), pub |-> Owner(i)]]
Init == /\ n \in 1..MaxIn /\ bound \in BOOLEAN
        /\ tx = "tx" /\ sp = Honest(n) /\ cuts = 0
        /\ signed = {Sig(Owner(i), t, i) : i \in 1..n, t \in {"tx", OtherTx}}

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Known == signed \cup {Junk} \cup {Sig(Evil, t, i) : t \in {tx, "tx"}, i \in 1..n}
Cut ==
    /\ cuts < MaxCuts /\ cuts' = cuts + 1 /\ UNCHANGED <<n, bound, signed>>
    /\ \/ tx' \in {OtherTx, "altered", "garbled"} \ {tx} /\ UNCHANGED sp
       \/ \E i \in 1..Len(sp), s \in Known : sp' = [sp EXCEPT ![i].sig = s] /\ UNCHANGED tx
       \/ \E i \in 1..Len(sp), k \in {Evil} \cup 1..n \cup {98} : sp' = [sp EXCEPT ![i].pub = k] /\ UNCHANGED tx
       \/ \E i, j \in 1..Len(sp) : i < j /\ sp' = [sp EXCEPT ![i] = sp[j], ![j] = sp[i]] /\ UNCHANGED tx
       \/ \E i \in 1..Len(sp) : sp' = Without(sp, i) /\ UNCHANGED tx
       \/ \E i \in 1..Len(sp) : Len(sp) <= n /\ sp' = Append(sp, sp[i]) /\ UNCHANGED tx
(* an owner may sign another input's message, or the altered transaction's, by mistake: *)
(* such signatures exist but must not be taken for this input                           *)
Stray == /\ cuts < MaxCuts /\ cuts' = cuts + 1
         /\ \E i, j \in 1..n : i # j /\ signed' = signed \cup {Sig(Owner(i), "tx", j)}
         /\ UNCHANGED <<n, bound, tx, sp>>
Next == Cut \/ Stray
Spec == Init /\ [][Next]_vars

(* the combiner *)
Accepts == /\ tx # "garbled" /\ Len(sp) = n
           /\ \A i \in 1..n : sp[i].sig = Sig(sp[i].pub, tx, i) /\ (bound => sp[i].pub = Owner(i))
(* what it releases was signed, input by input, by the presented keys *)
Sound == Accepts => \A i \in 1..n : sp[i].pub = Evil \/ Sig(sp[i].pub, tx, i) \in signed
Bound == Accepts /\ bound => \A i \in 1..n : Sig(Owner(i), tx, i) \in signed
NoAltered == Accepts => tx \in {"tx", OtherTx} \/ \A i \in 1..n : sp[i].pub = Evil
Complete == cuts = 0 => Accepts

----------------------------------------------------------------------------
(* Scenarios: named alterations, at every position *)
Whole == {"none", "tx.byte", "tx.trunc", "tx.append", "tx.field", "sp.none"}
AtOne == {"sig.othertx", "sig.bit", "sig.otherkey", "evil", "sp.missing", "sp.extra", "sig.trunc", "sig.append", "sig.empty",
          "sig.zero", "sig.high", "pub.other", "pub.bit", "pub.malformed"}
AtTwo == {"sig.otherinput", "sp.swap", "sig.swap"}
CutsOf(m) == {[c |-> c, i |-> 1, j |-> 1] : c \in Whole} \cup {[c |-> c, i |-> i, j |-> i] : c \in AtOne, i \in 1..m}
             \cup {x \in [c : AtTwo, i : 1..m, j : 1..m] : x.i # x.j /\ (x.c = "sig.otherinput" \/ x.i < x.j)}
Emitted == /\ EmitCuts >= 1 => \A m \in 1..3 : \A c \in CutsOf(m) : Emit(StrCat("SCN ", ToJson([N |-> m, Cuts |-> <<c>>])))
           /\ EmitCuts >= 2 => \A m \in 1..2 : \A c, d \in CutsOf(m) : c.c # "none" /\ d.c # "none" => Emit(StrCat("SCN ", ToJson([N |-> m, Cuts |-> <<c, d>>])))
ASSUME Emitted
=============================================================================
