------------------------------ MODULE TraceBase ------------------------------
(* Common frame of all trace specifications.  A trace file holds recorded    *)
(* behaviours of the implementation, one per line, each a sequence of calls  *)
(* (events).  A behaviour starts in session state Start and every event must *)
(* be a step the specification allows: Judge(st, e) gives the verdict, the   *)
(* successor session state and what the specification expected.  The event    *)
(* carries its position (sc, at).                                            *)
EXTENDS Bytes, Json, IOUtils
CONSTANTS Judge(_, _), Start
VARIABLES sc, i, st
Scens == LoadTrace(IOEnv.TRACE)
Evs(n) == Scens[n].ev

TraceInit == sc \in 1..Len(Scens) /\ i = 1 /\ st = Start
TraceNext ==
    /\ i <= Len(Evs(sc))
    /\ UNCHANGED sc
    /\ LET e == [sc |-> sc, at |-> i] @@ Evs(sc)[i]
           r == IF e.op = "hang" THEN [ok |-> FALSE, st |-> st, exp |-> "the call returns"]
                ELSE IF e.op = "mutated" THEN [ok |-> FALSE, st |-> st, exp |-> "arguments and earlier results stay as they are"]
                ELSE Judge(st, e)
       IN IF r.ok
          THEN i' = i + 1 /\ st' = r.st
          ELSE /\ Emit(StrCat("REJECT ", ToJson([sc |-> sc, id |-> Scens[sc].id, i |-> i, exp |-> r.exp])))
               /\ i' = Len(Evs(sc)) + 2 /\ st' = st
=============================================================================
