------------------------------- MODULE Bucket -------------------------------
(***************************************************************************)
(* Buckets of candidate kernels.  A candidate is a record [k, param, v]    *)
(* (kernel, varied parameter, value id) and the bucket the sequence of its *)
(* candidates.  Value ids: numerals stand for good values;       "bad" is  *)
(* a value the kernel cannot be built with; "2^e" are the powers of two of  *)
(* the documented grids.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxAdds, Emitting
VARIABLES bkt, hist
vars == <<bkt, hist>>

None == <<"none">>            \* a value list is <<"none">> or <<"list", v1, v2, ..>>
L(s) == <<"list">> \o s
Bad(v) == v = "bad"
Candidates(k, param, vs) ==
    IF vs = None THEN <<>>
    ELSE [i \in 1..Len(SelectSeq(Tail(vs), LAMBDA v : ~Bad(v))) |->
            [k |-> k, param |-> param, v |-> SelectSeq(Tail(vs), LAMBDA v : ~Bad(v))[i]]]
Skipped(vs) == IF vs = None THEN 0 ELSE Len(SelectSeq(Tail(vs), Bad))
Empty(vs) == vs = L(<<>>)

Slots == <<<<"poly", "degree">>, <<"gaussian", "sigma">>, <<"laplacian", "gamma">>, <<"sigmoid", "gamma">>, <<"sigmoid", "offset">>>>
Linear == [k |-> "linear", param |-> "", v |-> "0"]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Members(cfg) == <<Linear>> \o Cat([i \in 1..5 |-> Candidates(Slots[i][1], Slots[i][2], cfg[i])])
Warned(cfg)  == Sum([i \in 1..5 |-> Skipped(cfg[i])])

\* the documented grids: powers of two as strings "2^e"
Exhaustive == <<L(<<"2", "3", "4">>), L(<<"2^-5", "2^-3", "2^-1", "2^1", "2^3", "2^5">>),
                L(<<"2^-5", "2^-3", "2^-1", "2^1", "2^3", "2^5">>), L(<<"2^-5", "2^-3", "2^-1", "2^1", "2^3", "2^5">>),
                L(<<"-2", "1", "2">>)>>
Light == <<L(<<"2", "3">>), L(<<"2^-3", "2^-1", "2^1">>), L(<<"2^-3", "2^-1", "2^1">>),
           L(<<"2^-3", "2^-1", "2^1", "2^3", "2^5">>), L(<<"1">>)>>
LinearOnly == <<None, None, None, None, None>>
Strategies == {"exhaustive", "light", "linear_only"}
Grid(s) == CASE s = "exhaustive" -> Exhaustive [] s = "light" -> Light [] s = "linear_only" -> LinearOnly

ValueLists == {None, L(<<"3">>), L(<<"2", "1">>), L(<<"1", "bad", "3">>)}
\* PolyKernel and LaplacianKernel accept any value: no bad ones there
Lists(i) == IF i = 2 THEN ValueLists ELSE {None, L(<<"3">>), L(<<"2.5", "1">>)}
Configs == {<<a, b, c, d, e>> : a \in Lists(1), b \in Lists(2), c \in Lists(3), d \in Lists(4), e \in Lists(5)}
FewConfigs == {LinearOnly, <<L(<<"2">>), None, None, None, L(<<"2", "1">>)>>, <<None, L(<<"1", "bad", "3">>), L(<<"3">>), None, None>>}
EmptyAt(i) == [j \in 1..5 |-> IF i = j THEN L(<<>>) ELSE None]
Kinds == {<<"poly", "degree">>, <<"poly", "b">>, <<"gaussian", "sigma">>, <<"hadamard", "alpha">>, <<"chi2", "gamma">>, <<"custom", "q">>}
AddLists(k) == {None, L(<<>>), L(<<"1", "3", "1">>), L(<<"3", "0.75">>), <<"string">>} \cup
               (IF k \in {"hadamard", "custom", "gaussian"} THEN {L(<<"bad">>), L(<<"2", "bad", "3">>)} ELSE {})

\* a bucket: does it exist, its candidates, normalization, whether it is attached
NoBucket == [live |-> FALSE, ms |-> <<>>, norm |-> FALSE, on |-> FALSE]
Init == bkt = NoBucket /\ hist = <<>>

Step(op, out, b, warn) ==
    /\ bkt' = b
    /\ hist' = Append(hist, [op |-> op, out |-> out, ms |-> b.ms, norm |-> b.norm, on |-> b.on, warn |-> warn])
Fresh(cfg, n) == [live |-> TRUE, ms |-> Members(cfg), norm |-> n, on |-> FALSE]

New == \E n \in BOOLEAN, s \in BOOLEAN :
        \/ \E cfg \in Configs : (s => n) /\   \* all configurations, flags varied
              Step([n |-> "new", cfg |-> cfg, norm |-> n, skip |-> s], "ok", Fresh(cfg, n), Warned(cfg))
        \/ \E i \in 1..5 : Step([n |-> "new", cfg |-> EmptyAt(i), norm |-> n, skip |-> s], "ValueError", bkt, 0)
Make == \E n \in BOOLEAN, s \in BOOLEAN :
        \/ \E g \in Strategies, case \in {"lower", "upper", "mixed"} :
              Step([n |-> "make", strategy |-> g, case |-> case, norm |-> n, skip |-> s], "ok", Fresh(Grid(g), n), 0)
        \/ \E g \in {"exhaustve", "", "all", "light ", "linear"} :
              Step([n |-> "make", strategy |-> g, case |-> "lower", norm |-> n, skip |-> s], "ValueError", bkt, 0)
\* from here on, the bucket exists
Again == \E n \in BOOLEAN : Step([n |-> "again", norm |-> n], "ok", bkt, 0)     \* make_kernel_bucket(bucket)
Add == ~bkt.on /\ \E kp \in Kinds, vs \in UNION {AddLists(kp[1]) : kp \in Kinds} :
        /\ vs \in AddLists(kp[1])
        /\ LET op == [n |-> "add", k |-> kp[1], param |-> kp[2], vs |-> vs] IN
           IF Empty(vs) \/ vs = <<"string">> THEN Step(op, "ValueError", bkt, 0)
           ELSE Step(op, "ok", [bkt EXCEPT !.ms = @ \o Candidates(kp[1], kp[2], vs)], Skipped(vs))
AddWrong == Step([n |-> "addwrong"], "KernelMethodsException", bkt, 0)            \* not a kernel function class
Attach == Step([n |-> "attach"], "ok", [bkt EXCEPT !.on = TRUE], 0)
Next == \/ hist = <<>> /\ (New \/ Make)
        \/ /\ hist # <<>> /\ bkt.live /\ Len(hist) <= MaxAdds
           /\ (\/ Len(bkt.ms) > 8 /\ hist[1].op.n = "make" /\ hist[1].op.case = "upper"
               \/ hist[1].op.n = "new" /\ hist[1].op.cfg \in FewConfigs)
           /\ (Again \/ Add \/ AddWrong \/ Attach)
Spec == Init /\ [][Next]_vars
View == <<bkt, IF hist = <<>> THEN 0 ELSE Len(hist), IF hist = <<>> THEN 0 ELSE hist[Len(hist)], IF hist = <<>> THEN 0 ELSE hist[1].op>>

\* ------------------------------------------------------------------- laws --
LinearFirst == bkt.live => bkt.ms[1] = Linear
NoBadMember == \A i \in DOMAIN bkt.ms : bkt.ms[i].v # "bad"
OnlyGrows   == [][bkt.live => (Len(bkt'.ms) >= Len(bkt.ms) /\ SubSeq(bkt'.ms, 1, Len(bkt.ms)) = bkt.ms)]_vars
FailureChangesNothing == [][hist'[Len(hist')].out # "ok" => bkt' = bkt]_vars
NormFixed   == [][bkt.live => bkt'.norm = bkt.norm]_vars
LightInExhaustive ==      \* every light candidate except the wider sigmoid grid is an exhaustive one
    \A i \in DOMAIN Members(Light) : \E j \in DOMAIN Members(Exhaustive) : Members(Light)[i] = Members(Exhaustive)[j]
Emit == (Emitting /\ hist # <<>>) => PrintT("@GEN " \o ToJson(hist))
=============================================================================
