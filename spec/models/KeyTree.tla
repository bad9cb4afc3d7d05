------------------------------- MODULE KeyTree -------------------------------
(* Design model of hierarchical keys: a wallet owner derives, neuters, writes *)
(* out and reads back keys; an observer receives public keys only and applies *)
(* every operation there is.  Keys live in the cyclic group Z_Q: the private  *)
(* key is the exponent, the public key the element (same number, other tag).  *)
(* Mix is an arbitrary fixed function standing for the keyed hash: the model  *)
(* is checked for every value of its parameter M.                             *)
EXTENDS Naturals, Sequences, FiniteSets, Json, Prims, TLC
CONSTANTS Q, MaxDepth, MaxOps, Mixers, Emitting
VARIABLES m, keys, obs, hist
vars == <<m, keys, obs, hist>>

Idx == 0..3                          \* 2 and 3 are hardened
Hard(j) == j >= 2
Mix(ch, data, j) == ((m * ch) + (data * data) + (m * j) + (ch * data) + j + 1)
Tw(ch, data, j) == Mix(ch, data, j) % Q
Ch(ch, data, j) == (Mix(ch, data, j) * 3 + m) % Q
Key(prv, v, ch, path) == [prv |-> prv, v |-> v, ch |-> ch, path |-> path]
(* the hashed data: the private number for hardened children, else the public *)
Data(k, j) == IF Hard(j) THEN k.v + Q ELSE k.v
Kid(k, j, prv) == LET d == Data(k, j) IN Key(prv, (k.v + Tw(k.ch, d, j)) % Q, Ch(k.ch, d, j), Append(k.path, j))
PrvChild(k, j) == IF k.prv /\ Len(k.path) < MaxDepth THEN {Kid(k, j, TRUE)} ELSE {}
Neuter(k) == [k EXCEPT !.prv = FALSE]
PubChild(k, j) == IF k.prv THEN {Neuter(x) : x \in PrvChild(k, j)}
                  ELSE IF ~Hard(j) /\ Len(k.path) < MaxDepth THEN {Kid(k, j, FALSE)} ELSE {}
Text(k) == <<k.prv, k.v, k.ch, k.path>>
Parse(t) == Key(t[1], t[2], t[3], t[4])

Init == /\ m \in Mixers
        /\ keys = {Key(TRUE, v, c, <<>>) : v \in {1}, c \in {2}}
        /\ obs = {} /\ hist = <<>>
Log(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
OwnPrv == \E k \in keys, j \in Idx : keys' = keys \cup PrvChild(k, j) /\ Log(IF Hard(j) THEN "P" ELSE "p") /\ UNCHANGED <<m, obs>>
OwnPub == \E k \in keys, j \in Idx : keys' = keys \cup PubChild(k, j) /\ Log(IF Hard(j) THEN "U" ELSE "u") /\ UNCHANGED <<m, obs>>
OwnText == \E k \in keys : keys' = keys \cup {Parse(Text(k))} /\ Log("t") /\ UNCHANGED <<m, obs>>
OwnNeuter == \E k \in keys : keys' = keys \cup {Neuter(k)} /\ Log("n") /\ UNCHANGED <<m, obs>>
Show == \E k \in keys : ~k.prv /\ obs' = obs \cup {k} /\ Log("s") /\ UNCHANGED <<m, keys>>
ObsAny == \E k \in obs, j \in Idx : obs' = obs \cup PrvChild(k, j) \cup PubChild(k, j) \cup {Parse(Text(k)), Neuter(k)}
                                    /\ Log("o") /\ UNCHANGED <<m, keys>>
Next == OwnPrv \/ OwnPub \/ OwnText \/ OwnNeuter \/ Show \/ ObsAny
Spec == Init /\ [][Next]_vars

(* P04: a path denotes one key, however it was derived *)
OneKeyPerPath == \A a, b \in keys \cup obs : a.path = b.path => (a.v = b.v /\ a.ch = b.ch)
(* P05: what the observer can reach is public, and descends by ordinary steps from something shown *)
NoEscalation == \A k \in obs : ~k.prv /\ \E r \in keys : /\ Len(r.path) <= Len(k.path)
                                                        /\ SubSeq(k.path, 1, Len(r.path)) = r.path
                                                        /\ \A j \in (Len(r.path) + 1)..Len(k.path) : ~Hard(k.path[j])
DepthBound == \A k \in keys \cup obs : Len(k.path) <= MaxDepth
(* P06 *)
TextIdentity == \A k \in keys : Parse(Text(k)) = k

(* scenarios: all operation sequences of the owner; the concrete replay runs *)
(* each on every curve                                                       *)
Ops == {"p", "P", "u", "U", "n", "t"}
Emitted == IF Emitting
           THEN \A o \in UNION {[1..k -> Ops] : k \in 0..3} : Emit(StrCat("SCN ", ToJson([ops |-> o])))
           ELSE TRUE
ASSUME Emitted
=============================================================================
