---------------------------- MODULE KernelSets -----------------------------
(***************************************************************************)
(* Kernel sets: sequences of references to kernel matrices of one common   *)
(* size.  Matrices are shared objects: attaching a set changes its members *)
(* for all who hold them.                                                  *)
(*   st.km[m]  = [pre, num, on, attr]  pre: precomputed (fixed) matrix     *)
(*               num: 0 not attached, n one sample of n rows,              *)
(*                    1000 n + m two samples                               *)
(*               on: name of the sample(s) attached to, "" if none         *)
(*               attr: set of <<name, value>>                              *)
(*   st.set[s] = [live, ms, num, fixed]  ms: sequence of matrix names      *)
(*               num/fixed: common size, and whether it is determined      *)
(* Do(st, e) = [st, out, res]: effect, outcome class and result of call e. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NRows(_)              \* number of rows of a sample

Range(q) == {q[i] : i \in DOMAIN q}
Ok(st, res)   == [st |-> st, out |-> "ok", res |-> res]
Fail(st, err) == [st |-> st, out |-> err, res |-> <<>>]
AddErr == "KMSetAdditionError"

Empty == [live |-> TRUE, ms |-> <<>>, num |-> 0, fixed |-> FALSE]

\* the set after adding matrices q one after the other; .ok says whether all were compatible
RECURSIVE AddAll(_, _, _)
AddAll(km, S, q) ==
    IF q = <<>> THEN [ok |-> TRUE, S |-> S]
    ELSE LET m == Head(q)
             S1 == IF S.fixed THEN S ELSE [S EXCEPT !.num = km[m].num, !.fixed = TRUE]
         IN  IF S1.num # km[m].num THEN [ok |-> FALSE, S |-> S]
             ELSE AddAll(km, [S1 EXCEPT !.ms = Append(@, m)], Tail(q))

AttrVal(A, n, d) == IF \E p \in A : p[1] = n THEN (CHOOSE p \in A : p[1] = n)[2] ELSE d
SetAttr(A, n, v) == {p \in A : p[1] # n} \cup {<<n, v>>}

AttachKM(km, m, s) == [km EXCEPT ![m] = [pre |-> FALSE, num |-> NRows(s), on |-> s, attr |-> {}]]
RECURSIVE AttachAll(_, _, _)
AttachAll(km, q, s) == IF q = <<>> THEN km ELSE AttachAll(AttachKM(km, Head(q), s), Tail(q), s)
RECURSIVE AttrAll(_, _, _, _)
AttrAll(km, q, n, vs) == IF q = <<>> THEN km
    ELSE AttrAll([km EXCEPT ![Head(q)].attr = SetAttr(@, n, Head(vs))], Tail(q), n, Tail(vs))
Rep(v, k) == [i \in 1..k |-> v]

Do(st, e) ==
    CASE e.op = "newset" ->
            LET S0 == IF e.num = 0 THEN Empty ELSE [Empty EXCEPT !.num = e.num, !.fixed = TRUE]
                r  == AddAll(st.km, S0, e.ms)
            IN  IF r.ok THEN Ok([st EXCEPT !.set[e.s] = r.S], <<>>) ELSE Fail(st, AddErr)
      [] e.op = "append" ->
            LET r == AddAll(st.km, st.set[e.s], <<e.m>>)
            IN  IF r.ok THEN Ok([st EXCEPT !.set[e.s] = r.S], <<>>) ELSE Fail(st, AddErr)
      [] e.op = "extend" ->
            LET r == AddAll(st.km, st.set[e.s], st.set[e.t].ms)
            IN  IF st.set[e.s].num = st.set[e.t].num /\ r.ok THEN Ok([st EXCEPT !.set[e.s] = r.S], <<>>)
                ELSE Fail(st, AddErr)
      [] e.op = "extendbad" -> Fail(st, AddErr)
      [] e.op = "take" ->
            LET S == st.set[e.s] IN
            IF \E i \in Range(e.ix) : i < 0 \/ i >= Len(S.ms) THEN Fail(st, "IndexError")
            ELSE LET r == AddAll(st.km, Empty, [i \in DOMAIN e.ix |-> S.ms[e.ix[i] + 1]])
                 IN  IF r.ok THEN Ok([st EXCEPT !.set[e.u] = r.S], <<>>) ELSE Fail(st, AddErr)
      [] e.op = "index" ->
            LET S == st.set[e.s] IN
            IF e.i < 0 \/ e.i >= Len(S.ms) THEN Fail(st, "IndexError") ELSE Ok(st, <<S.ms[e.i + 1]>>)
      [] e.op = "funcs" ->
            LET S == st.set[e.s] IN
            IF \E i \in Range(e.ix) : i < 0 \/ i >= Len(S.ms) THEN Fail(st, "IndexError")
            ELSE Ok(st, [i \in DOMAIN e.ix |-> S.ms[e.ix[i] + 1]])
      [] e.op = "attach" ->
            LET S == st.set[e.s] IN
            IF S.num # 0 /\ S.num # NRows(e.on) THEN Fail(st, "ValueError")
            ELSE LET km1 == AttachAll(st.km, S.ms, e.on)
                     km2 == IF e.n = "" THEN km1 ELSE AttrAll(km1, S.ms, e.n, Rep(e.v, Len(S.ms)))
                 IN  Ok([st EXCEPT !.km = km2, !.set[e.s].num = NRows(e.on), !.set[e.s].fixed = TRUE], <<>>)
      [] e.op = "attachkm" -> Ok([st EXCEPT !.km = AttachKM(@, e.m, e.on)], <<>>)
      [] e.op = "setattr" ->
            LET S == st.set[e.s] IN
            IF e.form = "scalar" \/ Len(e.vs) = 1
            THEN Ok([st EXCEPT !.km = AttrAll(@, S.ms, e.n, Rep(e.vs[1], Len(S.ms)))], <<>>)
            ELSE IF Len(e.vs) # Len(S.ms) THEN Fail(st, "ValueError")
            ELSE Ok([st EXCEPT !.km = AttrAll(@, S.ms, e.n, e.vs)], <<>>)
      [] e.op = "kmattr" -> Ok([st EXCEPT !.km[e.m].attr = SetAttr(@, e.n, e.v)], <<>>)
      [] e.op = "getattr" ->
            Ok(st, [i \in DOMAIN st.set[e.s].ms |-> AttrVal(st.km[st.set[e.s].ms[i]].attr, e.n, e.d)])
      [] e.op = "value" -> Ok(st, <<st.km[e.m].on>>)          \* the full matrix is that of this sample

HasPre(st, s) == \E m \in Range(st.set[s].ms) : st.km[m].pre
\* calls whose meaning is specified (the others are not made)
Specified(st, e) ==
    /\ "s" \in DOMAIN e /\ e.op # "newset" => st.set[e.s].live
    /\ CASE e.op = "extend" -> /\ st.set[e.t].live /\ e.s # e.t
                               \* members attached elsewhere meanwhile
                               /\ \A k \in DOMAIN st.set[e.s].ms : st.km[st.set[e.s].ms[k]].num = st.set[e.s].num
                               \* an empty set whose size is not determined yet
                               /\ (st.set[e.s].fixed \/ st.set[e.t].num = 0)
                               /\ (st.set[e.t].fixed \/ st.set[e.s].num = 0)
         [] e.op \in {"funcs", "getattr"} -> ~HasPre(st, e.s)
         [] e.op = "attach" -> ~HasPre(st, e.s) \/ (st.set[e.s].num # 0 /\ st.set[e.s].num # NRows(e.on))
         [] e.op = "setattr" -> /\ ~HasPre(st, e.s)
                                /\ st.set[e.s].ms # <<>>
         [] e.op = "attachkm" -> ~st.km[e.m].pre
         [] e.op = "kmattr" -> ~st.km[e.m].pre
         [] e.op = "value" -> ~st.km[e.m].pre /\ st.km[e.m].num \in 1..999
         [] OTHER -> TRUE
=============================================================================
