------------------------------- MODULE T_Addr -------------------------------
(* Recorded calls of addressEncoder: encode, decode, check (P01, P02, P03).   *)
EXTENDS Addr
VARIABLES sc, i, st
Start == [text |-> <<>>, prof |-> "", h |-> <<>>]

JudgeEncode(s, e) ==
    LET P == Profile[e.prof]
        x == HexBytes(e.x)
        t == AddrText(P, x)
    IN [ok |-> e.panic = "" /\ StrBytes(e.out) = t,
        st |-> [text |-> t, prof |-> e.prof, h |-> Decoded(P, PayloadOf(P, x))],
        exp |-> BytesStr(t)]

JudgeDecode(s, e) ==
    LET P == Profile[e.prof]
        t == HexBytes(e.t)
        want == AddrParse(P, t)
        trip == t = s.text /\ e.prof = s.prof /\ (Len(s.h) \in Lens(P) \/ P.enc = "eip55")          \* decoding what was just encoded
    IN [ok |-> /\ e.panic = ""
               /\ IF want = {} THEN ~e.ok /\ e.out = ""
                  ELSE e.ok /\ {HexBytes(e.out)} = want
               /\ trip => (e.ok /\ HexBytes(e.out) = s.h),
        st |-> s,
        exp |-> IF want = {} THEN "error" ELSE ToHex(CHOOSE b \in want : TRUE)]

JudgeCheck(s, e) ==
    LET want == CheckOK(e.sym, HexBytes(e.t))
    IN [ok |-> e.panic = "" /\ e.val = want /\ e.ok = want, st |-> s, exp |-> IF want THEN "valid" ELSE "invalid"]

Judge(s, e) == CASE e.op = "encode" -> JudgeEncode(s, e)
                 [] e.op = "decode" -> JudgeDecode(s, e)
                 [] e.op = "check" -> JudgeCheck(s, e)
INSTANCE TraceBase
=============================================================================
