----------------------------- MODULE TextTrace -----------------------------
(***************************************************************************)
(* Trace validation for TextForms.  A trace is a sequence of events, each  *)
(* an action with the texts of all objects after it: obs is a sequence of  *)
(*   [k, x, agree, has]: kind and name of the object, whether str, repr,   *)
(* format and the f-string agree (and none raised), facts found in it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.KM_TRACES)
VARIABLES tid, l, on, ms, sized, comp
vars == <<tid, l, on, ms, sized, comp>>
\* the kernel matrices of all the traces (three each, but for the ones with large sets)
KMs == UNION {{Traces[i].kms[j] : j \in DOMAIN Traces[i].kms} : i \in DOMAIN Traces}
M == INSTANCE TextForms WITH Samples <- {"A", "B", "C"}, MaxLevel <- 0, Generate <- FALSE, hist <- <<>>
T == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ l = 0 /\ on = [k \in KMs |-> <<>>] /\ ms = [x \in M!Sets |-> <<"absent">>] /\ sized = {} /\ comp = M!None
Act(e) == CASE e.op = "attach" -> M!Attach(e.k, e.a) [] e.op = "attach2" -> M!Attach2(e.k, e.a, e.b)
            [] e.op = "use" -> M!Use(e.k, e.how) [] e.op = "refuse" -> M!Refuse(e.k, e.how) [] e.op = "refuseset" -> M!RefuseSet(e.s, e.how)
             [] e.op = "make" -> M!Make(e.s, e.q) [] e.op = "setattach" -> M!SetAttach(e.s, e.a)
            [] e.op = "take" -> M!Take(e.s, e.t, e.q) [] e.op = "compose" -> M!Compose(e.s, e.how) [] e.op = "fit" -> M!Fit
            [] e.op = "start" -> UNCHANGED <<on, ms, sized, comp>>
Bad(o) == (IF o.agree THEN {} ELSE {"agree-" \o o.k})
          \cup {"missing " \o f : f \in M!Tells(o) \ M!Range(o.has)}
          \cup {"stale " \o f : f \in M!NotTells(o) \cap M!Range(o.has)}
\* the texts are checked in the state they were taken in
Next == \/ /\ l < Len(T.events) /\ l' = l + 1 /\ UNCHANGED tid
           /\ Act(T.events[l + 1])
Spec == Init /\ [][Next]_vars
Report == l = 0 \/ LET B == {[x |-> T.events[l].obs[i].x, k |-> T.events[l].obs[i].k, bad |-> Bad(T.events[l].obs[i])] :
                                i \in {j \in DOMAIN T.events[l].obs : Bad(T.events[l].obs[j]) # {}}}
          IN  IF B = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([trace |-> tid, event |-> l, what |-> B]))
=============================================================================
