----------------------------- MODULE Composite -----------------------------
(***************************************************************************)
(* Life of a composite kernel over a set of Size members: constructed,     *)
(* fitted, read, fitted again with other weights or after the set has been *)
(* attached to other data.  Matrices are symbolic terms                    *)
(* [kind, data version, weights]; MatrixOps gives them their value.        *)
(* Weights are named: "none" (default), "w1", "w2" (with zero and negative *)
(* entries), "z" (summing to zero), "short", "long" (wrong length).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Size, Generate
VARIABLES ver,       \* data version the set is attached to, 0: none
          comp,      \* [kind, wc]  (kind "" : no composite yet)
          fit,       \* <<>> or <<term>>
          prev,      \* the fit before that one (nothing of it may be left)
          ev, hist
vars == <<ver, comp, fit, prev, ev, hist>>
Kinds == {"sum", "product", "average", "weighted"}
Good == {"w1", "w2", "z"}
Bad  == {"short", "long"}
NoTerm == [kind |-> "", ver |-> 0, w |-> "none"]
Term(k, v, w) == [kind |-> k, ver |-> v, w |-> w]

Init == /\ ver \in {0, 1} /\ comp = [kind |-> "", wc |-> "none"] /\ fit = <<>> /\ prev = <<>>
        /\ ev = [op |-> "start", out |-> "ok", term |-> Term("", ver, "none")]
        /\ hist = IF Generate THEN <<[op |-> "start", out |-> "ok", term |-> Term("", ver, "none")]>> ELSE <<>>
Step(e) == /\ ev' = e /\ hist' = IF Generate THEN Append(hist, e) ELSE hist
Keep == UNCHANGED <<ver, comp, fit, prev>>

NewOk(k, w) == Size >= 2 /\ ver # 0 /\ (k = "weighted" => w \in Good)
New(k, w) == /\ (k = "weighted") = (w # "none")
             /\ IF NewOk(k, w)
                THEN comp' = [kind |-> k, wc |-> w] /\ fit' = <<>> /\ prev' = <<>> /\ UNCHANGED ver
                     /\ Step([op |-> "new", kind |-> k, w |-> w, out |-> "ok", term |-> NoTerm])
                ELSE Keep /\ Step([op |-> "new", kind |-> k, w |-> w, out |-> "ValueError", term |-> NoTerm])
NewBad(k) == Keep /\ Step([op |-> "newbad", kind |-> k, w |-> "w1", out |-> "TypeError", term |-> NoTerm])
Fit(w) == /\ comp.kind # "" /\ (comp.kind # "sum" => w = "none")
          /\ IF w \in Bad
             THEN Keep /\ Step([op |-> "fit", w |-> w, out |-> "ValueError", term |-> NoTerm])
             ELSE /\ fit' = <<Term(comp.kind, ver, IF comp.kind = "weighted" THEN comp.wc ELSE w)>>
                  /\ prev' = fit /\ UNCHANGED <<ver, comp>>
                  /\ Step([op |-> "fit", w |-> w, out |-> "ok", term |-> NoTerm])
Read(how) == /\ comp.kind # ""
             /\ fit # <<>> => fit[1].ver = ver          \* (stale results are not specified)
             /\ Keep
             /\ IF fit = <<>> THEN Step([op |-> how, out |-> "ValueError", term |-> NoTerm])
                ELSE Step([op |-> how, out |-> "ok", term |-> fit[1]])
Attach(v) == ver' = v /\ UNCHANGED <<comp, fit, prev>> /\ Step([op |-> "attach", v |-> v, out |-> "ok", term |-> NoTerm])
LinComb(w, n) == /\ ver # 0 /\ w # "none" /\ Keep
                 /\ IF w \in Bad THEN Step([op |-> "lincomb", w |-> w, norm |-> n, out |-> "ValueError", term |-> NoTerm])
                    ELSE IF n /\ w = "z" THEN Step([op |-> "lincomb", w |-> w, norm |-> n, out |-> "RuntimeError", term |-> NoTerm])
                    ELSE Step([op |-> "lincomb", w |-> w, norm |-> n, out |-> "ok",
                               term |-> Term(IF n THEN "lincombn" ELSE "lincomb", ver, w)])
Members == ver # 0 /\ Keep /\ Step([op |-> "members", out |-> "ok", term |-> Term("members", ver, "none")])
Next == \/ \E k \in Kinds : (\E w \in {"none"} \cup Good \cup Bad : New(k, w)) \/ NewBad(k)
        \/ \E w \in {"none"} \cup Good \cup Bad : Fit(w)
        \/ \E h \in {"full", "composite_KM"} : Read(h)
        \/ \E v \in {1, 2} : Attach(v)
        \/ \E w \in Good \cup Bad, n \in BOOLEAN : LinComb(w, n)
        \/ Members
Spec == Init /\ [][Next]_vars
View == <<ver, comp, fit, prev>>
\* what is read is the combination of the members as they are, with the weights of the latest fit
ReadFresh == [][ev'.op \in {"full", "composite_KM"} /\ ev'.out = "ok" =>
                   ev'.term.ver = ver /\ ev'.term.kind = comp.kind]_vars
NeverUnfitted == [][ev'.op \in {"full", "composite_KM"} /\ fit = <<>> => ev'.out # "ok"]_vars
NeedsTwo == comp.kind # "" => Size >= 2
Emit == Generate => PrintT("@GEN " \o ToJson(hist'))
=============================================================================
