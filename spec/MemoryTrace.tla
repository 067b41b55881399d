---------------------------- MODULE MemoryTrace ----------------------------
(***************************************************************************)
(* Trace validation for Memory: each trace is                              *)
(*   [given: types, events: seq of [op, args, out, res, after]]            *)
(* after[h] is the content of object h after the call, as a number: 0 the  *)
(* first content seen of that object.  A call that failed returns nothing: *)
(* res is "void" then.  Total verdict, as in KMTrace.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.KM_TRACES)
VARIABLES tid, l, types, ver
vars == <<tid, l, types, ver>>
M == INSTANCE Memory WITH Given <- <<>>, Names <- {}, MaxCalls <- 0, Generate <- FALSE, Writers <- {},
                          todo <- "", calls <- 0, hist <- <<>>
T == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ l = 0
        /\ types = Traces[tid].given /\ ver = [h \in DOMAIN Traces[tid].given |-> 0]
E == T.events[l + 1]
Changed == {h \in DOMAIN ver : types[h] \in M!Data /\ E.after[h] # ver[h]}
WellTyped == /\ E.op \in DOMAIN M!Sig
             /\ Len(E.args) = Len(M!Sig[E.op].args)
             /\ \A i \in DOMAIN E.args : types[E.args[i]] \in {M!Sig[E.op].args[i], "void"}
             /\ E.res \in {M!Sig[E.op].res, "void"}
Failing == (IF WellTyped THEN {} ELSE {"trace-shape"})
           \cup (IF Changed = {} THEN {} ELSE {"frame"})
           \cup (IF E.out = "write-refused" THEN {"writes-protected-data"} ELSE {})
Next == /\ l < Len(T.events) /\ l' = l + 1 /\ UNCHANGED tid
        /\ types' = IF E.res = "none" THEN types ELSE Append(types, E.res)
        /\ ver' = [h \in DOMAIN types' |-> E.after[h]]
        /\ IF Failing = {} THEN TRUE
           ELSE PrintT("@FAIL " \o ToJson([trace |-> tid, event |-> l + 1, clauses |-> Failing, changed |-> Changed]))
Spec == Init /\ [][Next]_vars
=============================================================================
