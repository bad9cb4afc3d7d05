------------------------------ MODULE Sessions ------------------------------
(* P21.  Several wallets use the library at once.  Session s makes the calls *)
(* Prog(s), one after another; calls of different sessions interleave, and   *)
(* with Overlap they may even be under way at the same time.  The library    *)
(* the specification describes keeps nothing between calls and writes        *)
(* nothing but its results: the result of a call is F of its arguments, and  *)
(* the caller's memory stays as it is.                                       *)
(* Scratch and Clobber are faults used to show that the invariants are not   *)
(* vacuous (Sessions_leak*.cfg): Scratch makes calls share a work cell,      *)
(* Clobber makes a call write into its caller's argument.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Prims
CONSTANTS N, K, Overlap, Scratch, Clobber
S == 1..N
Arg(s, k) == <<s, k>>                 \* the symbolic argument of call k of session s
F(a) == <<"result", a>>
VARIABLES
    pc,      \* pc[s]: number of calls session s has completed
    busy,    \* busy[s]: a call of s is under way
    mem,     \* mem[s][k]: the argument as it lies in the caller's memory
    got,     \* got[s]: results so far
    cell,    \* the shared work cell of the faulty library
    order    \* the schedule: who completed a call
vars == <<pc, busy, mem, got, cell, order>>
Init ==
    /\ pc = [s \in S |-> 0] /\ busy = [s \in S |-> FALSE] /\ got = [s \in S |-> <<>>]
    /\ mem = [s \in S |-> [k \in 1..K |-> Arg(s, k)]]
    /\ cell = <<>> /\ order = <<>>
Result(s, c) == F(IF Scratch THEN c ELSE mem[s][pc[s] + 1])
Finish(s, c) ==
    /\ got' = [got EXCEPT ![s] = Append(@, Result(s, c))]
    /\ mem' = IF Clobber THEN [mem EXCEPT ![s][pc[s] + 1] = <<0, 0>>] ELSE mem
    /\ pc' = [pc EXCEPT ![s] = @ + 1]
    /\ order' = Append(order, s)
Begin(s) ==
    /\ Overlap /\ ~busy[s] /\ pc[s] < K
    /\ busy' = [busy EXCEPT ![s] = TRUE]
    /\ cell' = IF Scratch THEN mem[s][pc[s] + 1] ELSE cell
    /\ UNCHANGED <<pc, mem, got, order>>
End(s) ==
    /\ busy[s]
    /\ busy' = [busy EXCEPT ![s] = FALSE]
    /\ Finish(s, cell) /\ UNCHANGED cell
Call(s) ==
    /\ ~Overlap /\ pc[s] < K
    /\ cell' = IF Scratch THEN mem[s][pc[s] + 1] ELSE cell
    /\ Finish(s, cell') /\ UNCHANGED busy
Done == \A s \in S : pc[s] = K
Next == \E s \in S : Call(s) \/ Begin(s) \/ End(s)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
TypeOK == pc \in [S -> 0..K] /\ Len(order) <= N * K
(* every result is what the same call gives when made alone *)
Stateless == \A s \in S : \A k \in 1..Len(got[s]) : got[s][k] = F(Arg(s, k))
(* no call alters its caller's arguments *)
Kept == \A s \in S : \A k \in 1..K : mem[s][k] = Arg(s, k)
(* every complete interleaving is a schedule to replay *)
Emits == (Done /\ ~Overlap) => Emit(StrCat("SCN ", ToJson([Order |-> order])))
=============================================================================
