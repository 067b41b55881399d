----------------------------- MODULE Estimators -----------------------------
(***************************************************************************)
(* An estimator and its clones: parameters, fitting, predictions.          *)
(* Parameters are a function from names to value ids; training sets, test  *)
(* sets and weights are ids as well.  A prediction is the symbolic term    *)
(* [parameters at fit, training set, weights, test set]; the harness gives *)
(* it its value with scikit-learn's SVC/SVR on precomputed kernels.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Vals, Train, Weighted, Tests, MaxLevel, Generate,
          Tools,     \* scikit-learn tools the estimator is handed to
          BadFits,   \* kinds of training data that fit rejects at once
          LateFits,  \* kinds that only the learner rejects: what is left of an earlier fit is then not specified
          BadTests,  \* kinds of test data that predict rejects
          Copies     \* also: copies of estimators (deepcopy, pickle), and estimators given the same parameter objects
VARIABLES est,      \* slot -> [live, par, fit]   fit: <<>> or <<[par, d, w]>>
          ev, hist
vars == <<est, ev, hist>>
Slots == {"e", "f"}
Pars == [Names -> 1..Vals]
Dead == [live |-> FALSE, par |-> [n \in Names |-> 1], fit |-> <<>>]
NoTerm == [has |-> FALSE]

Init == /\ \E p \in Pars : est = [s \in Slots |-> IF s = "e" THEN [live |-> TRUE, par |-> p, fit |-> <<>>] ELSE Dead]
        /\ ev = [op |-> "new", s |-> "e", out |-> "ok", par |-> est["e"].par, term |-> NoTerm]
        /\ hist = <<ev>>
Step(e) == ev' = e /\ hist' = IF Generate THEN Append(hist, e) ELSE <<>>
E(s) == est[s]
Known(s) == E(s).fit # <<>> => E(s).fit[1].d # 0
Fit(s, d, w) == /\ E(s).live
                /\ est' = [est EXCEPT ![s].fit = <<[par |-> E(s).par, d |-> d, w |-> w]>>]
                /\ Step([op |-> "fit", s |-> s, d |-> d, w |-> w, out |-> "ok", par |-> E(s).par, term |-> NoTerm])
\* parameters changed since the fit: what predict then does is not specified
Predict(s, t) == /\ E(s).live /\ UNCHANGED est /\ Known(s)
                 /\ E(s).fit # <<>> => E(s).fit[1].par = E(s).par
                 /\ IF E(s).fit = <<>>
                    THEN Step([op |-> "predict", s |-> s, t |-> t, out |-> "NotFittedError", par |-> E(s).par, term |-> NoTerm])
                    ELSE Step([op |-> "predict", s |-> s, t |-> t, out |-> "ok", par |-> E(s).par,
                               term |-> [has |-> TRUE, f |-> E(s).fit[1], t |-> t]])
\* rejected calls: an exception, and everything is as before
BadFit(s, kind, d) == /\ E(s).live /\ UNCHANGED est
                      /\ Step([op |-> "badfit", s |-> s, kind |-> kind, d |-> d, out |-> "rejected", par |-> E(s).par, term |-> NoTerm])
BadPredict(s, kind) == /\ E(s).live /\ UNCHANGED est
                       /\ E(s).fit # <<>> => E(s).fit[1].par = E(s).par
                       /\ Step([op |-> "badpredict", s |-> s, kind |-> kind, out |-> "rejected", par |-> E(s).par, term |-> NoTerm])
\* rejected by the learner: an exception; the estimator has to be fitted again before it is specified what it predicts
LateFit(s, kind, d) == /\ E(s).live
                       /\ est' = [est EXCEPT ![s].fit = <<[par |-> E(s).par, d |-> 0, w |-> 0]>>]
                       /\ Step([op |-> "latefit", s |-> s, kind |-> kind, d |-> d, out |-> "rejected", par |-> E(s).par, term |-> NoTerm])
Set(s, ch) == /\ E(s).live
              /\ est' = [est EXCEPT ![s].par = [n \in Names |-> IF n \in DOMAIN ch THEN ch[n] ELSE E(s).par[n]]]
              /\ Step([op |-> "set", s |-> s, ch |-> ch, out |-> "ok", par |-> est'[s].par, term |-> NoTerm])
Get(s) == E(s).live /\ UNCHANGED est /\ Step([op |-> "get", s |-> s, out |-> "ok", par |-> E(s).par, term |-> NoTerm])
Clone(s, r) == /\ E(s).live /\ r # s
               /\ est' = [est EXCEPT ![r] = [live |-> TRUE, par |-> E(s).par, fit |-> <<>>]]
               /\ Step([op |-> "clone", s |-> s, r |-> r, out |-> "ok", par |-> E(s).par, term |-> NoTerm])
\* a copy is fitted when the original is, and predicts the same
Copy(s, r, how) == /\ Copies /\ E(s).live /\ r # s
                   /\ est' = [est EXCEPT ![r] = E(s)]
                   /\ Step([op |-> "copy", s |-> s, r |-> r, how |-> how, out |-> "ok", par |-> E(s).par, term |-> NoTerm])
\* another estimator, constructed with the very same parameter objects
Share(s, r) == /\ Copies /\ E(s).live /\ r # s
               /\ est' = [est EXCEPT ![r] = [live |-> TRUE, par |-> E(s).par, fit |-> <<>>]]
               /\ Step([op |-> "share", s |-> s, r |-> r, out |-> "ok", par |-> E(s).par, term |-> NoTerm])
\* A tool (cross-validation, grid search, pipeline, ...) works on clones: whatever it computes is a function of the
\* parameters and the data it is given, and the estimator handed in stays as it is.  The harness gives the term
\* its value: on each fold, what the term [parameters, rows of the other folds] of a fresh estimator predicts.
Tool(s, kind, d) == /\ E(s).live /\ kind # "score" /\ UNCHANGED est
                    /\ kind = "isfitted" => Known(s)
                    /\ Step([op |-> "tool", s |-> s, kind |-> kind, d |-> d, out |-> "ok", par |-> E(s).par,
                             term |-> [has |-> TRUE, f |-> [par |-> E(s).par, d |-> d, w |-> 0], t |-> 0]])
\* score(X, y) is the accuracy (R2) of predict(X)
Score(s, d) == /\ "score" \in Tools /\ E(s).live /\ E(s).fit # <<>> /\ Known(s) /\ E(s).fit[1].par = E(s).par /\ UNCHANGED est
               /\ Step([op |-> "tool", s |-> s, kind |-> "score", d |-> d, out |-> "ok", par |-> E(s).par,
                        term |-> [has |-> TRUE, f |-> E(s).fit[1], t |-> 0]])
Changes == UNION {[S -> 1..Vals] : S \in {S \in SUBSET Names : Cardinality(S) \in 1..2}}
Next == \E s \in Slots :
          \/ \E d \in Train, w \in Weighted : Fit(s, d, w)
          \/ \E t \in Tests : Predict(s, t)
          \/ \E ch \in Changes : Set(s, ch)
          \/ Get(s)
          \/ \E d \in Train : \E k \in BadFits : BadFit(s, k, d)
          \/ \E d \in Train : \E k \in LateFits : LateFit(s, k, d)
          \/ \E k \in BadTests : BadPredict(s, k)
          \/ \E d \in Train : Score(s, d) \/ \E k \in Tools : Tool(s, k, d)
          \/ \E r \in Slots : Clone(s, r) \/ Share(s, r)
          \/ \E r \in Slots, how \in {"deepcopy", "pickle"} : Copy(s, r, how)
Spec == Init /\ [][Next]_vars
View == est
Bound == TLCGet("level") < MaxLevel

\* ------------------------------------------------------------- properties --
Making == {"clone", "copy", "share"}
\* an estimator's predictions depend on its own latest fit only
OnlyLatestFit == [][ev'.op = "predict" /\ ev'.out = "ok" => ev'.term.f = est[ev'.s].fit[1]]_vars
\* nothing but set_params changes parameters, nothing but fit (and clone) the fitted state; slots do not interfere
ParamsStable  == [][\A s \in Slots : (E(s).live /\ E(s).par # est'[s].par) => (ev'.s = s /\ ev'.op = "set") \/ (ev'.op \in Making /\ ev'.r = s)]_vars
FitStable     == [][\A s \in Slots : E(s).fit # est'[s].fit => (ev'.s = s /\ ev'.op \in {"fit", "latefit"}) \/ (ev'.op \in Making /\ ev'.r = s)]_vars
CloneUnfitted == [][ev'.op = "clone" => est'[ev'.r].fit = <<>> /\ est'[ev'.r].par = est[ev'.s].par /\ est'[ev'.s] = est[ev'.s]]_vars
CopyFaithful  == [][ev'.op = "copy" => est'[ev'.r] = est[ev'.s] /\ est'[ev'.s] = est[ev'.s]]_vars
ToolsAreSilent == [][ev'.op = "tool" => est' = est /\ ev'.term.f.par = est[ev'.s].par]_vars
RejectedIsVoid == [][ev'.op \in {"badfit", "badpredict"} => est' = est /\ ev'.out = "rejected"]_vars
\* a prediction always rests on a fit that succeeded
OnlySuccessfulFits == [][ev'.op = "predict" /\ ev'.out = "ok" => ev'.term.f.d \in Train]_vars
NeverUnfitted == [][ev'.op = "predict" /\ est[ev'.s].fit = <<>> => ev'.out = "NotFittedError"]_vars
Emit == Generate => PrintT("@GEN " \o ToJson(hist'))
=============================================================================
