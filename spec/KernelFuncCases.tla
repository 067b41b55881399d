-------------------------- MODULE KernelFuncCases --------------------------
(* Cases for kernel functions (see MatrixCases), one state per case. *)
EXTENDS KernelFuncs, Json, IOUtils
CONSTANTS Source, Ops, Neg, Hi, MaxDim, Emitting
VARIABLE c
vars == <<c>>

Ent == (-Neg)..Hi

Params(k) ==
    CASE k = "linear"    -> {[none |-> 0]}
      [] k = "poly"      -> {[degree |-> q[1], gamma |-> q[2], b |-> q[3]] :
                                q \in {<<3, 4, 4>>, <<2, 1, -2>>, <<1, 4, 0>>, <<2, -6, 3>>}}
      [] k = "gaussian"  -> {[sigma |-> s] : s \in {8, 4, 1}}
      [] k = "laplacian" -> {[gamma |-> g] : g \in {4, 1}}
      [] k = "chi2"      -> {[gamma |-> g] : g \in {4, 2}}
      [] k = "sigmoid"   -> {[gamma |-> q[1], offset |-> q[2]] : q \in {<<4, 4>>, <<1, -3>>, <<-2, 0>>}}
      [] k = "hadamard"  -> {[alpha |-> a] : a \in {1, 2, 3}}
Shapes == {<<>>, <<1>>, <<3>>, <<4>>, <<3, 1>>, <<3, 1, 1>>, <<1, 1>>, <<1, 3>>, <<2, 3>>, <<3, 2>>, <<3, 1, 2>>, <<1, 3, 1>>, <<2, 1, 3>>}
Elems  == {"num", "numstr", "bool", "objnum", "badstr", "dict", "bytes"}
EnumCases ==
    UNION {CASE op = "num" -> UNION {{[op |-> "num", k |-> k, x |-> x, y |-> y, p |-> p] :
                                  p \in Params(k), x \in [1..d -> Ent], y \in [1..d -> Ent]} : k \in Numeric, d \in 1..MaxDim}
             [] op = "input" -> {[op |-> "input", k |-> k, dx |-> [shape |-> s, elem |-> e], dy |-> [shape |-> t, elem |-> f]] :
                                  k \in Numeric, s \in Shapes, t \in Shapes, e \in Elems, f \in {"num"}}
                                \cup
                                {[op |-> "input", k |-> k, dx |-> [shape |-> s, elem |-> e], dy |-> [shape |-> s, elem |-> f]] :
                                  k \in Numeric, s \in Shapes, e \in {"num"}, f \in Elems}
             [] op = "match" -> {[op |-> "match", x |-> x, y |-> y, perc |-> b, skip |-> s] :
                                  x \in UNION {[1..d -> {"a", "b", "ab", ""}] : d \in 1..2} \cup [1..3 -> {"a", "A"}],
                                  y \in UNION {[1..d -> {"a", "b", "ab", ""}] : d \in 1..2} \cup [1..3 -> {"a", "A"}],
                                  b \in BOOLEAN, s \in BOOLEAN}
             [] op = "callable" -> {[op |-> "callable", callable |-> b, n |-> n] : b \in BOOLEAN, n \in 0..4}
           : op \in Ops}
FileCases == ndJsonDeserialize(IOEnv.KM_TRACES)
Init == IF Source = "enum" THEN c \in EnumCases ELSE \E i \in DOMAIN FileCases : c = FileCases[i]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Expect == CASE c.op = "num"      -> NumOutcome(c.k, c.p, c.x, c.y)
            [] c.op = "input"    -> [out |-> InputOutcome(c.dx, c.dy)]
            [] c.op = "match"    -> MatchOutcome(c.x, c.y, c.perc)
            [] c.op = "callable" -> [out |-> CallableOutcome(c.callable, c.n)]

\* ------------------------------------------------------------------- laws --
Pair == Source = "enum" /\ c.op = "num" /\ Len(c.x) = Len(c.y)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
TermSet(t) == IF "terms" \in DOMAIN t THEN [t EXCEPT !.terms = SumOf([i \in DOMAIN t.terms |-> t.terms[i][1] * 1000 + t.terms[i][2]])] ELSE t
Symmetry    == Pair => NumOutcome(c.k, c.p, c.x, c.y) = NumOutcome(c.k, c.p, c.y, c.x)
Permutation == (Pair /\ NumOutcome(c.k, c.p, c.x, c.y).out = "ok") =>
                   TermSet(Term(c.k, c.p, c.x, c.y)) = TermSet(Term(c.k, c.p, Rev(c.x), Rev(c.y)))
Geometry    == Pair => /\ SS(c.x, c.y) = Dot(c.x, c.x) - 2 * Dot(c.x, c.y) + Dot(c.y, c.y)
                       /\ Dot(c.x, c.y) * Dot(c.x, c.y) <= Dot(c.x, c.x) * Dot(c.y, c.y)
                       /\ L1(c.x, c.y) * L1(c.x, c.y) >= SS(c.x, c.y)
                       /\ Len(c.x) * SS(c.x, c.y) >= L1(c.x, c.y) * L1(c.x, c.y)
Extremes    == (Pair /\ NumOutcome(c.k, c.p, c.x, c.y).out = "ok") => LET t == Term(c.k, c.p, c.x, c.y) IN
    /\ (c.k \in {"gaussian", "laplacian"} /\ c.x = c.y) => t.num = 0              \* value 1
    /\ (c.k \in {"gaussian", "laplacian"} /\ c.x # c.y) => t.num > 0              \* value < 1
    /\ c.k = "chi2" => ((\A i \in DOMAIN t.terms : t.terms[i][1] = 0) <=> c.x = c.y)
    /\ c.k = "chi2" => \A i \in DOMAIN t.terms : t.terms[i][1] <= t.terms[i][2] * t.terms[i][2]
    /\ c.k = "hadamard" => \A i \in DOMAIN t.terms : 0 <= t.terms[i][1]
    /\ (c.k = "hadamard" /\ c.p.alpha = 1 /\ c.x = c.y) =>                          \* |x|_1 / 4
            \A i \in DOMAIN t.terms : \E j \in DOMAIN c.x : 4 * t.terms[i][1] = Abs(c.x[j]) * t.terms[i][2]
MatchLaws   == (c.op = "match" /\ Len(c.x) = Len(c.y)) =>
    /\ Matches(c.x, c.y) = Matches(c.y, c.x)
    /\ Matches(c.x, c.x) = Len(c.x)
    /\ Matches(c.x, c.y) = Len(c.x) <=> c.x = c.y
    /\ MatchOutcome(c.x, c.y, TRUE).num <= MatchOutcome(c.x, c.y, TRUE).den
InputLaws   == c.op = "input" => (InputOutcome(c.dx, c.dy) = InputOutcome(c.dy, c.dx))
Emit == Emitting => PrintT("@GEN " \o ToJson([c |-> c, e |-> Expect]))
=============================================================================
