------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* Ranking and selection from one bucket of Size kernels, over histories   *)
(* of attachments, rankings and searches with several samples and targets. *)
(* Scores are symbolic: term [sample version, targets, method] means the   *)
(* score of every kernel on that sample (MatrixOps: Align, Best).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Generate
VARIABLES on, ev, hist
vars == <<on, ev, hist>>
Versions == {1, 2}
Targets == {"t1", "t2"}
NoTerm == [ver |-> 0, t |-> "", kind |-> ""]
Init == on = 0 /\ ev = [op |-> "start", out |-> "ok", term |-> NoTerm] /\ hist = <<>>
Step(e) == ev' = e /\ hist' = IF Generate THEN Append(hist, e) ELSE hist
\* (all samples have the same number of rows: a bucket keeps its num_samples)
Attach(v) == on' = v /\ Step([op |-> "attach", v |-> v, t |-> "", out |-> "ok", term |-> NoTerm])
Rank(t)   == on # 0 /\ UNCHANGED on
             /\ Step([op |-> "rank", v |-> 0, t |-> t, out |-> "ok", term |-> [ver |-> on, t |-> t, kind |-> "scores"]])
Find(v, t) == on' = v /\ Step([op |-> "find", v |-> v, t |-> t, out |-> "ok", term |-> [ver |-> v, t |-> t, kind |-> "best"]])
\* rejected calls
BadMethod(v, t) == UNCHANGED on /\ on = v
             /\ Step([op |-> "badfind", v |-> v, t |-> t, out |-> "NotImplementedError", term |-> NoTerm])
BadRank(t) == UNCHANGED on /\ Step([op |-> "badrank", v |-> 0, t |-> t, out |-> "NotImplementedError", term |-> NoTerm])
NonBucket == UNCHANGED on /\ Step([op |-> "nonbucket", v |-> 1, t |-> "t1", out |-> "TypeError", term |-> NoTerm])
\* what the members hold
Read == on # 0 /\ UNCHANGED on /\ Step([op |-> "read", v |-> 0, t |-> "", out |-> "ok", term |-> [ver |-> on, t |-> "", kind |-> "members"]])
Next == /\ Len(hist) < MaxLen
        /\ \/ \E v \in Versions : Attach(v) \/ \E t \in Targets : Find(v, t) \/ BadMethod(v, t)
           \/ \E t \in Targets : Rank(t) \/ BadRank(t)
           \/ NonBucket \/ Read
Spec == Init /\ [][Next]_vars
View == on
\* scores and choices refer to the sample attached last
Fresh == [][ev'.term.ver # 0 => ev'.term.ver = on']_vars
Emit == Generate => PrintT("@GEN " \o ToJson(hist'))
=============================================================================
