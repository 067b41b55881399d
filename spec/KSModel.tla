------------------------------ MODULE KSModel ------------------------------
(***************************************************************************)
(* Exhaustive exploration of KernelSets.tla for a small pool of matrices   *)
(* and two sets, with its properties; prints a history for every           *)
(* transition (Generate) for replay on the real classes.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS KMs, MaxLen, MaxLevel, Generate, WithAttrs
Samples == {"A", "A2", "B"}
NR(s) == CASE s = "A" -> 3 [] s = "A2" -> 3 [] s = "B" -> 2
KS == INSTANCE KernelSets WITH NRows <- NR
Sets == {"s", "t"}

VARIABLES st, ev, hist
vars == <<st, ev, hist>>

Km0(m) == CASE m = "u1" -> [pre |-> FALSE, num |-> 0, on |-> "", attr |-> {}]
            [] m = "u2" -> [pre |-> FALSE, num |-> 0, on |-> "", attr |-> {<<"p", "x">>}]
            [] m = "a"  -> [pre |-> FALSE, num |-> 3, on |-> "A", attr |-> {<<"p", "x">>}]
            [] m = "b"  -> [pre |-> FALSE, num |-> 2, on |-> "B", attr |-> {}]
            [] m = "p3" -> [pre |-> TRUE, num |-> 3, on |-> "", attr |-> {}]
            [] m = "ab" -> [pre |-> FALSE, num |-> 3002, on |-> "A|B", attr |-> {}]
Init == /\ st = [km |-> [m \in KMs |-> Km0(m)], set |-> [s \in Sets |-> [KS!Empty EXCEPT !.live = FALSE]]]
        /\ ev = [e |-> [op |-> "none"], r |-> [out |-> "ok", res |-> <<>>]] /\ hist = <<>>

SmallIx == {<<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 0>>, <<2>>, <<-1>>}
Calls ==
    {[op |-> "newset", s |-> s, num |-> n, ms |-> ms] :
        s \in Sets, n \in {0, 3}, ms \in {<<>>} \cup {<<m>> : m \in KMs} \cup {<<m, k>> : m, k \in KMs}}
    \cup {[op |-> "append", s |-> s, m |-> m] : s \in Sets, m \in KMs}
    \cup {[op |-> "extend", s |-> s, t |-> t] : s, t \in Sets}
    \cup {[op |-> "extendbad", s |-> s] : s \in Sets}
    \cup {[op |-> "take", s |-> s, u |-> u, ix |-> ix] : s, u \in Sets, ix \in SmallIx}
    \cup {[op |-> "index", s |-> s, i |-> i] : s \in Sets, i \in (-1)..2}
    \cup {[op |-> "attach", s |-> s, on |-> on, n |-> n, v |-> "w"] : s \in Sets, on \in Samples, n \in {"", "p"}}
    \cup {[op |-> "attachkm", m |-> m, on |-> on] : m \in KMs, on \in Samples}
    \cup (IF ~WithAttrs THEN {} ELSE
          {[op |-> "setattr", s |-> s, n |-> "p", form |-> "scalar", vs |-> <<"y">>] : s \in Sets}
          \cup {[op |-> "setattr", s |-> s, n |-> "p", form |-> "list", vs |-> vs] :
                    s \in Sets, vs \in {<<"y">>, <<"y", "z">>, <<"x", "y", "z">>}}
          \cup {[op |-> "getattr", s |-> s, n |-> "p", d |-> "none"] : s \in Sets}
          \cup {[op |-> "kmattr", m |-> m, n |-> "p", v |-> "y"] : m \in KMs})

Next == \E e \in Calls :
    /\ KS!Specified(st, e)
    /\ LET r == KS!Do(st, e) IN
        /\ st' = r.st
        /\ ev' = [e |-> e, r |-> [out |-> r.out, res |-> r.res]]
        /\ hist' = IF Generate THEN Append(hist, e) ELSE hist
        /\ \A s \in Sets : Len(st'.set[s].ms) <= MaxLen
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxLevel
View == st

\* ------------------------------------------------------------ properties --
\* every addition is compatible at the time it is made, and order is kept
Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]
AddedCompatible == [][\A s \in Sets :
    LET S == st.set[s] S1 == st'.set[s] IN
    (ev'.e.op \in {"append", "extend"} /\ ev'.e.s = s) =>
        /\ Prefix(S.ms, S1.ms)
        /\ \A i \in (Len(S.ms) + 1)..Len(S1.ms) : st.km[S1.ms[i]].num = S1.num
        /\ S.fixed => S1.num = S.num]_vars
\* a refused call changes nothing
RefusalIsSilent == [][ev'.r.out # "ok" => st' = st]_vars
\* only the addressed set changes, and members change only by attachment and attributes
Frame == [][/\ \A s \in Sets : st'.set[s] # st.set[s] =>
                 \/ ev'.e.op \in {"newset", "append", "extend", "attach"} /\ ev'.e.s = s
                 \/ ev'.e.op = "take" /\ ev'.e.u = s
            /\ st'.km # st.km => ev'.e.op \in {"attach", "attachkm", "setattr", "kmattr"}]_vars
\* attaching reaches every member and leaves no earlier attribute
AttachReaches == [][(ev'.e.op = "attach" /\ ev'.r.out = "ok") =>
    \A m \in KS!Range(st'.set[ev'.e.s].ms) :
        /\ st'.km[m].on = ev'.e.on
        /\ st'.km[m].attr = (IF ev'.e.n = "" THEN {} ELSE {<<ev'.e.n, ev'.e.v>>})]_vars
\* a set whose members are never attached one by one holds members of its own size
Uniform == \A s \in Sets : LET S == st.set[s] IN (S.live /\ S.ms # <<>>) => S.fixed
Emit == Generate => PrintT("@GEN " \o ToJson(hist'))
=============================================================================
