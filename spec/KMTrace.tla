------------------------------ MODULE KMTrace ------------------------------
(***************************************************************************)
(* Trace validation for KernelMatrix.  Input (ndjson, file in KM_TRACES):  *)
(* one trace per line,                                                     *)
(*   [keep, samples, raw, nonfinite, events]                               *)
(* Every event is checked against KernelMatrix.tla.  The verdict is total: *)
(* each trace is consumed to the end, every violated clause is printed as  *)
(*   @FAIL {"trace": .., "event": .., "clauses": [..], "two": .., ..}      *)
(* and the harness checks that the number of states is exactly             *)
(* the sum of (1 + number of events).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.KM_TRACES)

VARIABLES tid, l, st
vars == <<tid, l, st>>

T == Traces[tid]
NR(s) == T.samples[s].n
ZS(s) == T.samples[s].zero
K == INSTANCE KernelMatrix WITH NRows <- NR, ZeroSelf <- ZS, Keep <- T.keep

Cell(c) == <<c[1], c[2], c[3]>>
EvSet(e) == {Cell(c) : c \in K!Range(e.ev)}

\* raw values of the current attachment, as value ids
RawKey == IF K!Two(st) THEN st.one \o "|" \o st.two ELSE st.one
RawId(ij) == T.raw[RawKey][ij[1] + 1][ij[2] + 1]
IdBlock(b) == [r \in DOMAIN b |-> [c \in DOMAIN b[r] |-> RawId(b[r][c])]]

ExpectedBlock(e) ==
    CASE e.op = "get"    -> IdBlock(K!Block(K!SortedSeq(K!Resolve(e.ix, K!Rows(st)).set, K!Rows(st)),
                                            K!SortedSeq(K!Resolve(e.iy, K!Cols(st)).set, K!Cols(st))))
      [] e.op = "getlin" -> <<<<RawId(<<e.p \div K!Cols(st), e.p % K!Cols(st)>>)>>>>
      [] e.op = "diag"   -> <<[i \in 1..K!Rows(st) |-> RawId(<<i - 1, i - 1>>)]>>

IsBlockOp(e) == e.op \in {"get", "getlin", "diag"}
IsWhole(e)   == e.op \in K!WholeOps
Accepts(e)   == ~K!Refused(st, e) /\ ~K!NormRefused(st, e) /\ ~K!Struck(st, e)
Pairs(q) == {<<x[1], x[2]>> : x \in K!Range(q)}

\* does the computed matrix contain NaN/Inf?
NF(view) == <<view, RawKey>> \in Pairs(T.nonfinite)
\* a warning is due when the matrix is computed, that is on the first access that needs it
MustWarn(e) ==
    \/ "raw" \notin st.seen /\ NF("raw") /\ (e.op \in K!WholeOps \/ K!WholeGet(st, e))
    \/ "normed" \notin st.seen /\ NF("normed") /\ e.op \in K!NormOps
MayWarn(e) == NF("raw") \/ (NF("normed") /\ e.op \in K!NormOps)

Clause(name, ok) == IF ok THEN {} ELSE {name}

\* The names of all violated clauses of event e in state st
Failing(e) ==
    \* --- outcome -----------------------------------------------------------
    (IF e.op = "attachbad" THEN Clause("attach-rejects", e.out # "ok")
     ELSE IF e.op \in {"attach1", "attach2"} THEN Clause("attach-accepts", e.out = "ok")
     ELSE IF ~K!Attached(st) THEN Clause("accept-" \o e.op, e.out = "ok")      \* sizes, attributes, arming
     ELSE IF K!Refused(st, e) THEN
          Clause("refuse-" \o e.op, e.out # "ok")
          \cup (IF e.out = "ok" THEN {} ELSE
                Clause("error-class", "any" \in K!RequiredError(st, e) \/ e.out \in K!RequiredError(st, e)))
     ELSE IF K!Struck(st, e) THEN Clause("fault-reported", e.out # "ok")
     ELSE IF K!NormRefused(st, e) THEN Clause("norm-error", e.out = "KMNormError")
     ELSE Clause("accept-" \o e.op, e.out = "ok"))
    \* --- values ------------------------------------------------------------
    \cup (IF e.out = "ok" /\ IsBlockOp(e) /\ Accepts(e)
          THEN Clause("value-" \o e.op, e.m = ExpectedBlock(e)) \cup Clause("format-" \o e.op, e.fmt = "dense")
          ELSE {})
    \cup (IF e.out = "ok" /\ IsWhole(e) /\ Accepts(e) /\ K!ViewOf(e.op)[1] # "none"
             /\ ~(e.op = "sparse" /\ K!Two(st))       \* not specified for two samples
          THEN LET v == K!ViewOf(e.op)
               IN  (IF NF("raw") /\ v[1] \notin {"raw", "upper"} THEN {}   \* arithmetic on NaN/Inf: not specified
                    ELSE Clause("view-" \o e.op, <<v[1], RawKey>> \in Pairs(e.views)))
                   \cup Clause("format-" \o e.op, v[2] = "any" \/ e.fmt = v[2])
          ELSE {})
    \cup (IF e.op = "sizes" /\ e.out = "ok"
          THEN IF ~K!Attached(st) THEN Clause("sizes", e.num = <<>>)
               ELSE Clause("sizes", /\ e.shape = <<K!Rows(st), K!Cols(st)>>
                                    /\ e.size = K!Rows(st) * K!Cols(st)
                                    /\ e.len = e.size
                                    /\ e.num = IF K!Two(st) THEN <<K!Rows(st), K!Cols(st)>> ELSE <<K!Rows(st)>>)
          ELSE {})
    \cup (IF e.op = "getattr" /\ e.out = "ok" THEN Clause("attr-get", e.val = K!LookupAttr(st.attrs, e.n, e.dflt)) ELSE {})
    \cup (IF e.op = "attrs" /\ e.out = "ok" THEN Clause("attr-all", Pairs(e.all) = Pairs(st.attrs)) ELSE {})
    \* --- evaluations -------------------------------------------------------
    \cup (IF e.evlog
          THEN LET new  == EvSet(e)
                   need == IF K!Attached(st) THEN K!Need(st, e) ELSE {}
               IN  Clause("eval-known", \A c \in new : c[1] # "?")
                   \cup Clause("eval-once", Len(e.ev) = Cardinality(new) /\ new \cap (st.ev \cup st.self) = {})
                   \cup Clause("eval-lazy", {c \in new : c[1] # "?"} \subseteq need)
          ELSE {})
    \* --- the caller's data, and what was returned before ---------------------
    \cup Clause("inputs-unchanged", ~e.mutated)
    \cup Clause("results-unchanged", ~e.stale)
    \* --- warnings ------------------------------------------------------------
    \cup (IF e.out = "ok" /\ K!Attached(st) /\ (IsWhole(e) \/ IsBlockOp(e)) /\ Accepts(e)
          THEN Clause("warn-nonfinite", MustWarn(e) => e.warned)
               \cup Clause("no-false-warning", e.warned => MayWarn(e))
          ELSE {})

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = K!Fresh

Next ==
    /\ l <= Len(T.events)
    /\ LET e == T.events[l]
           bad == Failing(e)
       IN  /\ IF bad = {} THEN TRUE
              ELSE PrintT("@FAIL " \o ToJson([trace |-> tid, event |-> l, clauses |-> bad,
                                              two |-> K!Attached(st) /\ K!Two(st), key |-> RawKey]))
           /\ st' = (IF e.op = "attachbad" THEN st ELSE K!After(st, e, EvSet(e), e.out # "ok"))
           /\ l' = l + 1
           /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(T.events) + 1)
=============================================================================
