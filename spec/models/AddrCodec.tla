------------------------------ MODULE AddrCodec ------------------------------
(* Design model of address texts travelling over a corrupting channel.        *)
(* A network writes a payload as  version . payload . check ; the reader of a *)
(* network accepts a text iff it is exactly the text of some payload there.   *)
(* Every behaviour (which payload class, which corruptions, which reader) is  *)
(* also emitted as a scenario and replayed in the real encoder with concrete  *)
(* bytes for every supported network.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, Json, Prims, TLC
CONSTANTS Nets, Digit, MaxOps, Emitting

VARIABLES phase, net, pay, text, ops, rnet, result
vars == <<phase, net, pay, text, ops, rnet, result>>

PayLen == 2
Payloads == [1..PayLen -> Digit]
N == Cardinality(Digit)
SumOf(s) == LET RECURSIVE F(_) F(q) == IF q = <<>> THEN 0 ELSE Head(q) + F(Tail(q)) IN F(s)
(* position-weighted check symbol: catches every single substitution and     *)
(* every transposition of neighbours, as the real checks do with             *)
(* overwhelming probability                                                  *)
Chk(s) == LET RECURSIVE F(_, _)
              F(q, w) == IF q = <<>> THEN 0 ELSE w * Head(q) + F(Tail(q), w + 1)
          IN F(s, 1) % N
VerOf == CHOOSE f \in [Nets -> Digit] : \A a, b \in Nets : a # b => f[a] # f[b]
Enc(n, p) == LET b == <<VerOf[n]>> \o p IN b \o <<Chk(b)>>
Dec(n, t) == IF \E p \in Payloads : Enc(n, p) = t THEN CHOOSE p \in Payloads : Enc(n, p) = t ELSE <<>>

(* classes of payload the concrete generator must cover *)
Kinds == {"random", "zero", "ones", "leadzero", "leadzeros", "pubkey33", "pubkey64", "pubkey65", "low", "long32"}

Init == /\ phase = "idle" /\ net = "" /\ pay = <<>> /\ text = <<>> /\ ops = <<>> /\ rnet = "" /\ result = <<>>
Encode == /\ phase = "idle"
          /\ \E n \in Nets, p \in Payloads : net' = n /\ pay' = p /\ text' = Enc(n, p)
          /\ phase' = "sent" /\ UNCHANGED <<ops, rnet, result>>

CutAt(t, k) == SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))
PutAt(t, k, d) == SubSeq(t, 1, k - 1) \o <<d>> \o SubSeq(t, k, Len(t))
Recheck(t) == IF t = <<>> THEN t ELSE [t EXCEPT ![Len(t)] = Chk(SubSeq(t, 1, Len(t) - 1))]

Corrupted(op, t) ==
    CASE op = "subst"   -> {[t EXCEPT ![k] = d] : k \in 1..Len(t), d \in Digit}
      [] op = "delete"  -> {CutAt(t, k) : k \in 1..Len(t)}
      [] op = "insert"  -> {PutAt(t, k, d) : k \in 1..(Len(t) + 1), d \in Digit}
      [] op = "swap"    -> {[t EXCEPT ![k] = t[k + 1], ![k + 1] = t[k]] : k \in 1..(Len(t) - 1)}
      [] op = "trunc"   -> {SubSeq(t, 1, k) : k \in 0..(Len(t) - 1)}
      [] op = "append"  -> {Append(t, d) : d \in Digit}
      [] op = "prepend" -> {<<d>> \o t : d \in Digit}
      [] op = "rever"   -> {Recheck([t EXCEPT ![1] = d]) : d \in Digit}                  \* other version, valid check
      [] op = "relen"   -> {Recheck(CutAt(t, 2)), Recheck(PutAt(t, 2, 0))}               \* other length, valid check
      [] op = "empty"   -> {<<>>}
      [] op = "case"    -> {t}                                                            \* meaningful only in concrete texts
      [] op = "alien"   -> {PutAt(t, k, N) : k \in 1..(Len(t) + 1)}                       \* symbol outside the alphabet
OpKinds == {"subst", "delete", "insert", "swap", "trunc", "append", "prepend", "rever", "relen", "empty", "case", "alien"}

Corrupt == /\ phase = "sent" /\ Len(ops) < MaxOps /\ text # <<>>
           /\ \E op \in OpKinds : \E t \in Corrupted(op, text) : text' = t /\ ops' = Append(ops, op)
           /\ UNCHANGED <<phase, net, pay, rnet, result>>
Decode == /\ phase = "sent"
          /\ \E n \in Nets : rnet' = n /\ result' = Dec(n, text)
          /\ phase' = "read" /\ UNCHANGED <<net, pay, text, ops>>
Next == Encode \/ Corrupt \/ Decode
Spec == Init /\ [][Next]_vars

(* P01: the unharmed text gives back the payload *)
RoundTrip == (phase = "read" /\ rnet = net /\ text = Enc(net, pay)) => result = pay
(* P02: what is accepted is the canonical text of what is returned *)
OnlyCanonical == (phase = "read" /\ result # <<>>) => text = Enc(rnet, result)
NoAlienNet == (phase = "read" /\ ops = <<>> /\ rnet # net) => result = <<>>
DetectsOne == (phase = "read" /\ Len(ops) = 1 /\ ops[1] \in {"subst", "swap"} /\ rnet = net /\ result # <<>>) => result = pay

(* scenario emission (run with -workers 1) *)
Emitted == IF Emitting
           THEN \A k \in Kinds : \A same \in BOOLEAN :
                  \A o \in {<<>>} \cup {<<a>> : a \in OpKinds} \cup {<<a, b>> : a \in OpKinds, b \in OpKinds} :
                     Emit(StrCat("SCN ", ToJson([kind |-> k, same |-> same, ops |-> o])))
           ELSE TRUE
ASSUME Emitted
=============================================================================
