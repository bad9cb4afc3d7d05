------------------------------- MODULE TxForm -------------------------------
(* The wire form of a transaction of the Bitcoin family: a writer, a channel  *)
(* that may damage the text once, and a reader that goes through it field by  *)
(* field.  Bytes are 0..Wide, where Wide announces a count the drivers do not *)
(* represent; a marker 0 where the number of inputs stands means witnesses.   *)
(* Whatever the damage, the reader refuses or returns a transaction whose     *)
(* form is exactly the text; the undamaged text returns what was written.     *)
EXTENDS Prims, Naturals, Sequences, SequencesExt, FiniteSets, Json
CONSTANTS Wide, MaxIn, MaxOut, MaxScript, MaxItems, Emitting
VARIABLES tx, text, dmg, pc, pos, got
vars == <<tx, text, dmg, pc, pos, got>>
Bits == {0, 1}
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Some(S, n) == UNION {[1..k -> S] : k \in 1..n}
Scripts == Upto(Bits, MaxScript)
Stacks == Upto(Scripts, MaxItems)
Cat(f) == FoldLeft(LAMBDA a, b : a \o b, <<>>, f)
Var(s) == <<Len(s)>> \o s
(* version 2; an input: outpoint, script, sequence; an output: amount, script *)
WIn(s) == <<1>> \o Var(s) \o <<2>>
WOut(s) == <<1>> \o Var(s)
WStack(st) == <<Len(st)>> \o Cat([j \in 1..Len(st) |-> Var(st[j])])
Form(t) == <<2>> \o (IF t.seg THEN <<0, 1>> ELSE <<>>)
           \o <<Len(t.ins)>> \o Cat([j \in 1..Len(t.ins) |-> WIn(t.ins[j])])
           \o <<Len(t.outs)>> \o Cat([j \in 1..Len(t.outs) |-> WOut(t.outs[j])])
           \o (IF t.seg THEN Cat([j \in 1..Len(t.wit) |-> WStack(t.wit[j])]) ELSE <<>>) \o <<0>>
Txs == UNION {{[seg |-> TRUE, ins |-> i, outs |-> o, wit |-> w] : w \in [1..Len(i) -> Stacks]} \cup {[seg |-> FALSE, ins |-> i, outs |-> o, wit |-> <<>>]} :
              i \in Some(Scripts, MaxIn), o \in Some(Scripts, MaxOut)}
Cut(s, k) == SubSeq(s, 1, k - 1)
From(s, k) == SubSeq(s, k, Len(s))
Damages(s) == {<<"none", 0, 0>>}
              \cup {<<"cut", k, 0>> : k \in 1..Len(s)} \cup {<<"drop", k, 0>> : k \in 1..Len(s)} \cup {<<"twice", k, 0>> : k \in 1..Len(s)}
              \cup {<<"set", k, v>> : k \in 1..Len(s), v \in 0..Wide} \cup {<<"more", Len(s) + 1, v>> : v \in 0..Wide}
Apply(s, d) ==
    CASE d[1] = "none" -> s
      [] d[1] = "cut" -> Cut(s, d[2])
      [] d[1] = "drop" -> Cut(s, d[2]) \o From(s, d[2] + 1)
      [] d[1] = "twice" -> Cut(s, d[2] + 1) \o From(s, d[2])
      [] d[1] = "set" -> [s EXCEPT ![d[2]] = d[3]]
      [] d[1] = "more" -> Append(s, d[3])
Empty == [ver |-> 0, seg |-> FALSE, ins |-> <<>>, outs |-> <<>>, wit |-> <<>>, lock |-> 0]
Init == /\ tx \in Txs
        /\ \E d \in Damages(Form(tx)) : dmg = d /\ text = Apply(Form(tx), d)
        /\ pc = "version" /\ pos = 1 /\ got = [Empty EXCEPT !.seg = FALSE] @@ [n |-> 0]
(* the reader *)
Left == Len(text) - pos + 1
Refuse == pc' = "refused" /\ UNCHANGED <<tx, text, dmg, pos, got>>
Go(p, n, g) == pc' = p /\ pos' = pos + n /\ got' = g /\ UNCHANGED <<tx, text, dmg>>
Script(at) == \* length of the field with its length byte, 0 if it does not fit
    IF at > Len(text) \/ text[at] = Wide \/ at + text[at] > Len(text) THEN 0 ELSE 1 + text[at]
Body(at) == SubSeq(text, at + 1, at + text[at])
Version == /\ pc = "version"
           /\ IF Left < 1 \/ (Left >= 1 /\ text[pos] # 2) THEN Refuse ELSE Go("marker", 1, got)
Marker == /\ pc = "marker"
          /\ IF Left < 1 THEN Refuse
             ELSE IF text[pos] # 0 THEN Go("inputs", 0, got)
             ELSE IF Left < 2 \/ (Left >= 2 /\ text[pos + 1] # 1) THEN Refuse ELSE Go("inputs", 2, [got EXCEPT !.seg = TRUE])
Inputs == /\ pc = "inputs"
          /\ IF Left < 1 THEN Refuse ELSE IF text[pos] \in {0, Wide} THEN Refuse ELSE Go("input", 1, [got EXCEPT !.n = text[pos]])
Input == /\ pc = "input"
         /\ IF Len(got.ins) = got.n THEN Go("outputs", 0, got)
            ELSE LET k == Script(pos + 1)
                 IN IF k = 0 \/ Left < k + 2 \/ (Left >= k + 2 /\ (text[pos] # 1 \/ text[pos + 1 + k] # 2)) THEN Refuse
                    ELSE Go("input", k + 2, [got EXCEPT !.ins = Append(@, Body(pos + 1))])
Outputs == /\ pc = "outputs"
           /\ IF Left < 1 THEN Refuse ELSE IF text[pos] \in {0, Wide} THEN Refuse ELSE Go("output", 1, [got EXCEPT !.n = text[pos]])
Output == /\ pc = "output"
          /\ IF Len(got.outs) = got.n THEN Go("witness", 0, [got EXCEPT !.n = 0])
             ELSE LET k == Script(pos + 1)
                  IN IF k = 0 \/ (k # 0 /\ text[pos] # 1) THEN Refuse ELSE Go("output", k + 1, [got EXCEPT !.outs = Append(@, Body(pos + 1))])
Witness == /\ pc = "witness"
           /\ IF ~got.seg \/ Len(got.wit) = Len(got.ins) THEN Go("lock", 0, got)
              ELSE IF Left < 1 THEN Refuse ELSE IF text[pos] = Wide THEN Refuse
              ELSE Go("item", 1, [got EXCEPT !.n = text[pos], !.wit = Append(@, <<>>)])
Item == /\ pc = "item"
        /\ IF got.n = 0 THEN Go("witness", 0, got)
           ELSE LET k == Script(pos)
                IN IF k = 0 THEN Refuse ELSE Go("item", k, [got EXCEPT !.n = @ - 1, !.wit[Len(got.wit)] = Append(@, Body(pos))])
Lock == /\ pc = "lock"
        /\ IF Left # 1 THEN Refuse ELSE Go("done", 1, [got EXCEPT !.lock = text[pos]])
Next == Version \/ Marker \/ Inputs \/ Input \/ Outputs \/ Output \/ Witness \/ Item \/ Lock
Shown == [seg |-> got.seg, ins |-> got.ins, outs |-> got.outs, wit |-> got.wit]
Exact == pc = "done" => LET f == Form(Shown) IN Cut(f, Len(f)) \o <<got.lock>> = text
Returned == dmg[1] = "none" => pc # "refused" /\ (pc = "done" => Shown = tx)
InText == pos <= Len(text) + 1
Lens(s) == [j \in 1..Len(s) |-> Len(s[j])]
Plain(s) == \A j \in 1..Len(s) : \A k \in 1..Len(s[j]) : s[j][k] = 1
Emits == (Emitting /\ pc = "version" /\ dmg[1] = "none" /\ Plain(tx.ins) /\ Plain(tx.outs) /\ \A j \in 1..Len(tx.wit) : Plain(tx.wit[j])) =>
         Emit(StrCat("SCN ", ToJson([seg |-> tx.seg, ins |-> Lens(tx.ins), outs |-> Lens(tx.outs), wit |-> [j \in 1..Len(tx.wit) |-> Lens(tx.wit[j])], tokens |-> Len(text)])))
=============================================================================
