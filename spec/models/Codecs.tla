------------------------------- MODULE Codecs -------------------------------
(* The number and length formats the drivers write: a writer, a channel that  *)
(* may damage the wire, a reader.  The encoders are the very operators the    *)
(* trace specifications judge recorded transactions with, at full width; the  *)
(* readers are written here independently of them.                            *)
(*   Bitcoin CompactSize, LEB128, SCALE compact, WaykiChain base 128, RLP     *)
(*   naturals, Ripple length prefixes, Ontology script numbers, strict DER.   *)
(* The numbers at which some format changes its form are emitted and become   *)
(* the boundary values of every numeric field in the replayed requests.       *)
EXTENDS Moac, Ripple, Dot, Bytom, Wayki, Json
CONSTANTS Formats, Fine, Emitting
VARIABLES phase, fmt, val, wire, tail, result
vars == <<phase, fmt, val, wire, tail, result>>

(* values, as big-endian naturals without leading zeros *)
Pow(k) == Strip(<<2 ^ (k % 8)>> \o Zeros(k \div 8))
Nat2(n) == Strip(IntBE(n, 4))
Thresholds == {Nat2(n) : n \in {63, 64, 127, 128, 192, 193, 252, 253, 254, 255, 256, 12480, 12481, 16383, 16384, 16511, 16512, 65535, 65536}}
Near(b) == {b, BigAdd(b, <<1>>)} \cup (IF Strip(b) = <<>> THEN {} ELSE {Strip(BigSub(b, <<1>>))})
Values == UNION {Near(b) : b \in Thresholds \cup {Pow(k) : k \in 0..64}} \cup {Nat2(n) : n \in 0..Fine}
U64 == {v \in Values : Len(v) <= 8}
Small == {v \in Values : Len(v) <= 3 \/ (Len(v) = 4 /\ v[1] < 128)}
Sigs == {BE(x, 32) : x \in {Zeros(1), <<1>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<127>> \o Rep(255, 31), <<128>> \o Zeros(31), Rep(255, 32), <<128>> \o Zeros(30), <<127>> \o Zeros(29)}}
Domain(f) == CASE f = "compact" -> Small
               [] f = "xrplen" -> {v \in Small : Len(v) < 3 /\ ToInt(v) < 20000}
               [] f = "der" -> {r \o s : r \in Sigs, s \in Sigs}
               [] f = "leb" -> {v \in U64 : Len(v) < 8 \/ v[1] < 128}
               [] OTHER -> U64
Write(f, v) == CASE f = "compact" -> CompactSize(ToInt(v))
                 [] f = "leb" -> UvarBig(v)
                 [] f = "scale" -> Scale(v)
                 [] f = "wicc" -> WkNum(v)
                 [] f = "rlp" -> RlpNum(v)
                 [] f = "xrplen" -> LET n == ToInt(v) IN Take(XrpVL(Zeros(n)), Len(XrpVL(Zeros(n))) - n)
                 [] f = "ont" -> OntPush(v)
                 [] f = "der" -> Der(v)

(* readers: {} refused, otherwise {<<value, length>>} *)
RdCompact(w) == IF w[1] < 253 THEN {<<Strip(<<w[1]>>), 1>>}
                ELSE LET n == IF w[1] = 253 THEN 2 ELSE IF w[1] = 254 THEN 4 ELSE 8
                     IN IF Len(w) < 1 + n THEN {} ELSE LET v == Strip(Rev(At(w, 1, n)))
                        IN IF (n = 2 /\ (Len(v) < 1 \/ (Len(v) = 1 /\ v[1] < 253))) \/ (n = 4 /\ Len(v) < 3) \/ n = 8 THEN {} ELSE {<<v, 1 + n>>}
FirstLow(w) == {k \in 1..Len(w) : w[k] < 128 /\ \A j \in 1..(k - 1) : w[j] >= 128}
RdLeb(w) == UNION {IF k > 9 \/ (k > 1 /\ w[k] = 0) THEN {} ELSE {<<Convert(Rev([j \in 1..k |-> w[j] % 128]), 128, 256), k>>} : k \in FirstLow(w)}
RdScale(w) == LET m == w[1] % 4
                  n == IF m = 0 THEN 1 ELSE IF m = 1 THEN 2 ELSE IF m = 2 THEN 4 ELSE 5 + (w[1] \div 4)
              IN IF Len(w) < n THEN {}
                 ELSE LET v == IF m = 3 THEN Strip(Rev(At(w, 1, n - 1))) ELSE Convert(Bits(Rev(Take(w, n)), 8), 2, 4)
                          b == IF m = 3 THEN v ELSE Convert(Take(v, IF v = <<>> THEN 0 ELSE Len(v) - 1), 4, 256)
                      IN IF (m = 1 /\ (Len(b) < 1 \/ (Len(b) = 1 /\ b[1] < 64))) \/ (m = 2 /\ (Len(b) < 2 \/ (Len(b) = 2 /\ b[1] < 64)))
                            \/ (m = 3 /\ (Len(b) # n - 1 \/ Len(b) < 4 \/ (Len(b) = 4 /\ b[1] < 64))) THEN {} ELSE {<<b, n>>}
RECURSIVE WkUp(_, _)
WkUp(w, k) == IF k = 1 THEN Strip(<<w[1] % 128>>) ELSE BigAdd(BigMulInt(BigAdd(WkUp(w, k - 1), <<1>>), 128), <<w[k] % 128>>)
RdWk(w) == UNION {IF k > 10 THEN {} ELSE {<<Strip(WkUp(w, k)), k>>} : k \in FirstLow(w)}
RdRlp(w) == IF w[1] < 128 THEN (IF w[1] = 0 THEN {} ELSE {<<<<w[1]>>, 1>>})
            ELSE LET n == w[1] - 128 IN IF n > 55 \/ Len(w) < 1 + n THEN {} ELSE LET v == At(w, 1, n)
                 IN IF (n = 1 /\ v[1] < 128) \/ (n > 0 /\ v[1] = 0) THEN {} ELSE {<<v, 1 + n>>}
RdXrp(w) == IF w[1] <= 192 THEN {<<Strip(<<w[1]>>), 1>>}
            ELSE IF w[1] <= 240 THEN (IF Len(w) < 2 THEN {} ELSE {<<Nat2(193 + (w[1] - 193) * 256 + w[2]), 2>>})
            ELSE IF w[1] <= 254 /\ Len(w) >= 3 THEN {<<Nat2(12481 + (w[1] - 241) * 65536 + w[2] * 256 + w[3]), 3>>} ELSE {}
RdOnt(w) == IF w[1] = 0 THEN {<<<<>>, 1>>} ELSE IF w[1] \in 81..95 THEN {<<<<w[1] - 80>>, 1>>}
            ELSE IF w[1] > 75 \/ Len(w) < 1 + w[1] THEN {}
            ELSE LET n == w[1]
                     l == At(w, 1, n)
                 IN IF l[n] >= 128 \/ (l[n] = 0 /\ (n = 1 \/ l[n - 1] < 128)) \/ (n = 1 /\ l[1] < 16) THEN {} ELSE {<<Strip(Rev(l)), 1 + n>>}
RdDerInt(w, i) == IF i + 2 > Len(w) THEN {} ELSE IF w[i + 1] # 2 \/ w[i + 2] = 0 \/ w[i + 2] > 33 \/ i + 2 + w[i + 2] > Len(w) THEN {}
                  ELSE LET x == At(w, i + 2, w[i + 2])
                       IN IF x[1] >= 128 \/ (x[1] = 0 /\ Len(x) > 1 /\ x[2] < 128) \/ (Len(x) = 33 /\ x[1] # 0) THEN {} ELSE {<<BE(x, 32), i + 2 + w[i + 2]>>}
RdDer(w) == IF Len(w) < 2 THEN {} ELSE IF w[1] # 48 THEN {}
            ELSE UNION {{<<r[1] \o s[1], s[2]>> : s \in {x \in RdDerInt(w, r[2]) : x[2] = 2 + w[2]}} : r \in RdDerInt(w, 2)}
Read(f, w) == IF w = <<>> THEN {} ELSE
              CASE f = "compact" -> RdCompact(w) [] f = "leb" -> RdLeb(w) [] f = "scale" -> RdScale(w) [] f = "wicc" -> RdWk(w)
                [] f = "rlp" -> RdRlp(w) [] f = "xrplen" -> RdXrp(w) [] f = "ont" -> RdOnt(w) [] f = "der" -> RdDer(w)

Tails == {<<>>, <<0>>, <<127>>, <<128>>, <<255, 255>>}
Marks == {0, 1, 2, 48, 75, 76, 80, 81, 95, 96, 127, 128, 129, 192, 193, 240, 241, 252, 253, 254, 255}
Damaged(w) == {[w EXCEPT ![k] = x] : k \in {1, Len(w)}, x \in Marks}
              \cup {[w EXCEPT ![2] = x] : x \in IF Len(w) > 1 THEN Marks ELSE {}}
              \cup {SubSeq(w, 1, Len(w) - 1), Tail(w)} \cup {<<x>> \o w : x \in Marks} \cup {w \o <<x>> : x \in Marks}
Init == phase = "idle" /\ fmt = "" /\ val = <<>> /\ wire = <<>> /\ tail = <<>> /\ result = {}
Send == /\ phase = "idle" /\ phase' = "sent"
        /\ \E f \in Formats : \E v \in Domain(f) : fmt' = f /\ val' = v /\ wire' = Write(f, v)
        /\ UNCHANGED <<tail, result>>
Damage == /\ phase = "sent" /\ phase' = "hurt" /\ \E w \in Damaged(wire) : wire' = w
          /\ UNCHANGED <<fmt, val, tail, result>>
Receive == /\ phase \in {"sent", "hurt"} /\ phase' = IF phase = "sent" THEN "read" ELSE "misread"
           /\ \E t \in IF phase = "sent" THEN Tails ELSE {<<>>} : tail' = t /\ result' = Read(fmt, wire \o t)
           /\ UNCHANGED <<fmt, val, wire>>
Next == Send \/ Damage \/ Receive
Spec == Init /\ [][Next]_vars

(* what was written is read, and nothing that follows it is touched *)
RoundTrip == phase = "read" => result = {<<val, Len(wire)>>}
(* a wire that is read as some value starts with the one encoding of that value *)
Canonical == (phase = "misread" /\ result # {}) =>
             LET r == CHOOSE x \in result : TRUE
             IN Cardinality(result) = 1 /\ ((r[1] \in Domain(fmt)) => Write(fmt, r[1]) = Take(wire, r[2]))
(* so no two values share an encoding: damage is never read as the value sent, unless it left it whole *)
Noticed == (phase = "misread" /\ result # {}) => ((CHOOSE x \in result : TRUE)[1] = val => Take(wire, Len(Write(fmt, val))) = Write(fmt, val))

Emitted == Emitting => \A v \in U64 : Emit(StrCat("SCN ", ToJson([v |-> ToHex(BE(v, 8))])))
ASSUME Emitted
=============================================================================
