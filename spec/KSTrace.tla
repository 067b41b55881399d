------------------------------ MODULE KSTrace ------------------------------
(***************************************************************************)
(* Trace validation for kernel sets.  Each event carries the call, its     *)
(* outcome and result, and the complete observable state after it.         *)
(* Total verdict, as in KMTrace.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.KM_TRACES)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
NR(s) == T.rows[s]
KS == INSTANCE KernelSets WITH NRows <- NR

Pairs(q) == {<<x[1], x[2]>> : x \in KS!Range(q)}
InitState(t) ==
    [km |-> [m \in DOMAIN t.km |-> [pre |-> t.km[m].pre, num |-> t.km[m].num, on |-> t.km[m].on,
                                    attr |-> Pairs(t.km[m].attr)]],
     set |-> [s \in KS!Range(t.sets) |-> [KS!Empty EXCEPT !.live = FALSE]]]
Init == tid \in DOMAIN Traces /\ l = 1 /\ st = InitState(Traces[tid])

Clause(name, ok) == IF ok THEN {} ELSE {name}
Failing(e) ==
    LET r == KS!Do(st, e) IN
    IF ~KS!Specified(st, e) THEN {"machinery-unspecified-call"} ELSE
    Clause("outcome", (r.out = "ok") = (e.out = "ok"))
    \cup Clause("error-class", (r.out # "ok" /\ e.out # "ok") => r.out \in KS!Range(e.classes))
    \cup (IF r.out # "ok" \/ e.out # "ok" THEN {}
          ELSE IF e.op = "value" THEN Clause("value", r.res[1] \in KS!Range(e.res))
          ELSE Clause("result", r.res = e.res))
    \cup Clause("sets", \A s \in DOMAIN st.set : r.st.set[s].live =>
                   /\ s \in DOMAIN e.post.set
                   /\ e.post.set[s].ms = r.st.set[s].ms
                   /\ e.post.set[s].n = Len(r.st.set[s].ms))
    \cup Clause("set-size", \A s \in DOMAIN st.set : r.st.set[s].live =>
                   s \in DOMAIN e.post.set /\ e.post.set[s].num = r.st.set[s].num)
    \cup Clause("member-size", \A m \in DOMAIN st.km : e.post.km[m].num = r.st.km[m].num)
    \cup Clause("attributes", \A m \in DOMAIN st.km : ~st.km[m].pre =>
                   Pairs(e.post.km[m].attr) = r.st.km[m].attr /\ Len(e.post.km[m].attr) = Cardinality(r.st.km[m].attr))
Check(e) == LET f == Failing(e) IN
    IF f = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([trace |-> tid, event |-> l, clauses |-> f]))
Next == /\ l <= Len(T.events)
        /\ Check(T.events[l])
        /\ st' = IF KS!Specified(st, T.events[l]) THEN KS!Do(st, T.events[l]).st ELSE st
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
