------------------------------- MODULE Stream -------------------------------
(* A hash object fed in pieces: blocks of B symbols are compressed as soon as *)
(* they are full, each with the number of message symbols so far (zero for a  *)
(* block without any), the rest waits in a buffer; Sum pads a copy.  Whatever *)
(* the pieces, what is compressed for Sum is the padding of the message since *)
(* the last Reset, and Sum changes nothing.                                   *)
EXTENDS Prims, Naturals, Sequences, SequencesExt, Json
CONSTANTS B, Sizes, MaxOps, Emitting
VARIABLES ops, msg, done, buf
vars == <<ops, msg, done, buf>>
Sym == "m"
Msg(n) == [j \in 1..n |-> Sym]
Init == ops = <<>> /\ msg = 0 /\ done = <<>> /\ buf = <<>>
(* the machine *)
RECURSIVE Eat(_, _, _)
Eat(d, b, n) ==         \* n more symbols
    IF Len(b) + n < B THEN <<d, b \o Msg(n)>>
    ELSE LET t == Len(d) * B + B IN Eat(Append(d, <<b \o Msg(B - Len(b)), t>>), <<>>, n - (B - Len(b)))
Write(n) == LET r == Eat(done, buf, n) IN done' = r[1] /\ buf' = r[2] /\ msg' = msg + n
Reset == done' = <<>> /\ buf' = <<>> /\ msg' = 0
Keep == UNCHANGED <<done, buf, msg>>
Fill(n) == [j \in 1..n |-> "0"]
(* the mark, then zeros, an end mark and the length; a second block when they do not fit *)
Final == LET k == Len(buf)
             t == IF k = 0 THEN 0 ELSE Len(done) * B + k
         IN IF k = B - 2 THEN Append(done, <<buf \o <<"81", "len">>, t>>)
            ELSE IF k < B - 2 THEN Append(done, <<buf \o <<"80">> \o Fill(B - 3 - k) \o <<"01", "len">>, t>>)
            ELSE done \o << <<buf \o <<"80">> \o Fill(B - 1 - k), t>>, <<Fill(B - 2) \o <<"01", "len">>, 0>> >>
(* the definition *)
Padded == LET z == CHOOSE q \in 0..(B - 1) : (msg + 2 + q) % B = 0
          IN IF z = 0 THEN Msg(msg) \o <<"81", "len">> ELSE Msg(msg) \o <<"80">> \o Fill(z - 1) \o <<"01", "len">>
Defined == [k \in 1..(Len(Padded) \div B) |->
              <<SubSeq(Padded, (k - 1) * B + 1, k * B), IF (k - 1) * B >= msg THEN 0 ELSE IF k * B < msg THEN k * B ELSE msg>>]
Next == /\ Len(ops) < MaxOps
        /\ \/ \E n \in Sizes : Write(n) /\ ops' = Append(ops, n)
           \/ Keep /\ ops' = Append(ops, 1000)
           \/ Reset /\ ops' = Append(ops, 2000)
Right == Final = Defined
Bounded == Len(buf) < B
Emits == (Emitting /\ Len(ops) = MaxOps) => Emit(StrCat("SCN ", ToJson([ops |-> ops])))
=============================================================================
