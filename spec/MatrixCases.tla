---------------------------- MODULE MatrixCases ----------------------------
(***************************************************************************)
(* Cases for the matrix operations: one state per case.  Source = "enum":  *)
(* all small cases; Source = "file": the cases in the ndjson file named by *)
(* KM_TRACES (TLC is then the oracle for cases chosen by the harness).     *)
(* Every case is checked against the algebraic laws, and printed with the  *)
(* expected outcome for the conformance run on the real code.              *)
(***************************************************************************)
EXTENDS MatrixOps, TLC, Json, IOUtils
CONSTANTS Source, Ops, Neg, Hi, N, Emitting      \* entries range over -Neg..Hi
VARIABLE c
vars == <<c>>

Ent == (-Neg)..Hi
Mats(n, m) == [1..n -> [1..m -> Ent]]
SymMats(n) ==      \* from the upper triangle
    {[i \in 1..n |-> [j \in 1..n |-> u[IF i <= j THEN <<i, j>> ELSE <<j, i>>]]] :
        u \in [{p \in (1..n) \X (1..n) : p[1] <= p[2]} -> Ent]}
One(op)  == {[op |-> op, A |-> A] : A \in SymMats(N)} \cup {[op |-> op, A |-> A] : A \in Mats(2, 2)}
            \cup {[op |-> op, A |-> A] : A \in Mats(1, 2) \cup Mats(2, 1)}
Two(op)  == {[op |-> op, A |-> A, B |-> B] : A \in SymMats(2), B \in Mats(2, 2)}
            \cup {[op |-> op, A |-> A, B |-> B] : A \in {<<<<1>>>>, <<<<1, 2>>, <<2, 1>>>>},
                                                 B \in {<<<<1>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<1, 2>>>>}}
\* kernel functions that are positive semi-definite on every sample of (non-negative) numbers, and on no sample
\* of more than two different points (is_psd() looks at the cosine-normalized matrix: see PSDLaws, rescaling)
PSDKinds == {"linear", "poly", "gaussian", "laplacian", "chi2", "constant", "min", "delta", "user-gram"}
NotPSDKinds == {"one-plus-distance", "minus-delta", "minus-linear", "far"}
KernelKinds == PSDKinds \cup NotPSDKinds
Vec(n) == [1..n -> Ent]
Norm2 == {[op |-> "normalize2", A |-> A, dx |-> dx, dy |-> dy] :
            A \in Mats(1, 2), dx \in [1..1 -> 0..Hi] , dy \in [1..2 -> 0..Hi] \cup {<<1>>, <<1, 1, 1>>}}
         \cup {[op |-> "normalize2", A |-> A, dx |-> dx, dy |-> dy] :
            A \in {<<<<1, -2>>, <<3, 4>>>>}, dx \in [1..2 -> 0..Hi] \cup {<<4>>}, dy \in [1..2 -> 0..Hi]}
\* sets of two (symmetric) matrices, weights, every kind of composite
CompCases(op) ==
    {[op |-> op, kind |-> k, Ms |-> <<A, B>>, w |-> w, norm |-> b] :
        k \in (IF op = "comp" THEN {"sum", "product", "average", "weighted"} ELSE {"sum"}),
        A \in SymMats(2), B \in {<<<<1, 2>>, <<2, -1>>>>, <<<<0, 1>>, <<1, 3>>>>},
        w \in [1..2 -> (-1)..2], b \in (IF op = "comp" THEN {FALSE} ELSE BOOLEAN)}
EnumCases ==
    UNION {IF op \in {"center", "normalize", "psd", "norm"} THEN One(op)
           ELSE IF op \in {"frob", "align", "alignc", "corr"} THEN Two(op)
           ELSE IF op \in {"comp", "lincomb"} THEN CompCases(op)
           ELSE IF op = "choose" THEN {[op |-> "choose", s |-> s] : s \in UNION {[1..n -> (-1)..Hi] : n \in 1..4}}
           ELSE IF op = "pairwise" THEN {[op |-> "pairwise", metric |-> m, Ms |-> <<A, B>> \o t] :
                    m \in {"corr", "align"}, A \in SymMats(2), B \in {<<<<1, 2>>, <<2, -1>>>>, <<<<1, 1>>, <<1, 1>>>>},
                    t \in {<<>>, <<<<<<0, 1>>, <<1, 3>>>>>>}}
           ELSE IF op = "kpsd" THEN {[op |-> "kpsd", kind |-> k, p |-> p] : k \in KernelKinds, p \in 1..6}
           ELSE IF op = "ideal" THEN {[op |-> "ideal", v |-> v] : v \in Vec(1) \cup Vec(2) \cup Vec(3)}
           ELSE Norm2 : op \in Ops}
FileCases == ndJsonDeserialize(IOEnv.KM_TRACES)

Init == IF Source = "enum" THEN c \in EnumCases
        ELSE \E i \in DOMAIN FileCases : c = FileCases[i]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Err(name) == [out |-> name]
Expect ==
    CASE c.op = "center" ->
            IF ~Square(c.A) THEN Err("ValueError")
            ELSE [out |-> "ok", num |-> Centered(c.A), den |-> Rows(c.A) * Rows(c.A)]
      [] c.op = "normalize" ->
            IF ~Square(c.A) THEN Err("ValueError")
            ELSE IF HasZeroDiag(c.A) THEN Err("KMNormError")
            ELSE IF ~NormDefined(c.A) THEN Err("unspecified")
            ELSE [out |-> "ok", num |-> c.A, den |-> NormDen(Diag(c.A), Diag(c.A))]
      [] c.op = "normalize2" ->
            IF Len(c.dx) # Rows(c.A) \/ Len(c.dy) # Cols(c.A) THEN Err("ValueError")
            ELSE IF 0 \in {c.dx[i] : i \in DOMAIN c.dx} \cup {c.dy[i] : i \in DOMAIN c.dy} THEN Err("KMNormError")
            ELSE [out |-> "ok", num |-> c.A, den |-> NormDen(c.dx, c.dy)]
      [] c.op = "frob" ->
            IF ~SameShape(c.A, c.B) THEN Err("ValueError") ELSE [out |-> "ok", v |-> Frob(c.A, c.B)]
      [] c.op = "norm" -> [out |-> "ok", v |-> Frob(c.A, c.A)]
      [] c.op = "align" ->
            IF ~SameShape(c.A, c.B) \/ ~Square(c.A) THEN Err("ValueError")
            ELSE IF ~AlignDefined(Align(c.A, c.B)) THEN Err("vanishing") ELSE [out |-> "ok", r |-> Align(c.A, c.B)]
      [] c.op = "alignc" ->
            IF ~SameShape(c.A, c.B) THEN Err("ValueError")
            ELSE IF ~AlignDefined(AlignRaw(c.A, c.B)) THEN Err("vanishing")
            ELSE [out |-> "ok", r |-> AlignRaw(c.A, c.B)]
      [] c.op = "corr" ->
            IF ~SameShape(c.A, c.B) \/ Rows(c.A) * Cols(c.A) < 2 THEN Err("unspecified")
            ELSE IF ~AlignDefined(Corr(c.A, c.B)) THEN Err("unspecified")
            ELSE [out |-> "ok", r |-> Corr(c.A, c.B)]
      [] c.op = "psd" ->
            \* with tolerance 0+ (1e-6), 1/2 and 3/2
            [out |-> "ok", sym |-> Symmetric(c.A), t |-> <<PSD(c.A), Symmetric(c.A) /\ PSD(AddDiag(1, Scale(2, c.A))),
                                  Symmetric(c.A) /\ PSD(AddDiag(3, Scale(2, c.A)))>>]
      [] c.op = "comp" -> [out |-> "ok", r |-> Composite(c.kind, c.Ms, c.w)]
      [] c.op = "lincomb" ->
            IF Len(c.w) # Len(c.Ms) THEN Err("ValueError")
            ELSE IF c.norm /\ SumSeq(c.w) = 0 THEN Err("RuntimeError")
            ELSE [out |-> "ok", r |-> [m |-> LinComb(c.Ms, c.w), den |-> IF c.norm THEN SumSeq(c.w) ELSE 1]]
      [] c.op = "choose" ->       \* the first of the highest scores; -1: not a number
            IF \A i \in DOMAIN c.s : c.s[i] = -1 THEN Err("unspecified")
            ELSE [out |-> "ok", i |-> Best(c.s)]
      [] c.op = "pairwise" -> [out |-> "ok", r |-> Pairwise(c.metric, c.Ms)]
      [] c.op = "kpsd" -> [out |-> "ok", psd |-> c.kind \in PSDKinds]
      [] c.op = "ideal" -> [out |-> "ok", m |-> Outer(c.v, c.v)]

\* ------------------------------------------------------------------- laws --
Small == Source = "enum"        \* 32-bit integers: the laws are evaluated on the enumerated cases
IsSq == Small /\ "A" \in DOMAIN c /\ Square(c.A)
CenterLaws == (c.op = "center" /\ IsSq) => LET C == TLCEval(Centered(c.A)) IN
    /\ \A i \in 1..Rows(C) : RowSum(C, i) = 0 /\ ColSum(C, i) = 0
    /\ Centered(C) = Scale(Rows(C) * Rows(C), C)                     \* idempotent
    /\ Centered(Shift(3, c.A)) = C                                   \* constant shifts vanish
    /\ Centered(Scale(-2, c.A)) = Scale(-2, C)
    /\ Symmetric(c.A) => Symmetric(C)
    /\ Rows(C) = 1 => C = <<<<0>>>>
NormLaws == (c.op = "normalize" /\ IsSq /\ NormDefined(c.A)) =>
    /\ \A i \in 1..Rows(c.A) : c.A[i][i] * c.A[i][i] = NormDen(Diag(c.A), Diag(c.A))[i][i]   \* unit diagonal
    /\ LET B == DiagScale([i \in 1..Rows(c.A) |-> i + 1], c.A)                              \* rescaled points
       IN \A i, j \in 1..Rows(c.A) :
            (B[i][j] * B[i][j]) * NormDen(Diag(c.A), Diag(c.A))[i][j] =
            (c.A[i][j] * c.A[i][j]) * NormDen(Diag(B), Diag(B))[i][j]
FrobLaws == (Small /\ "B" \in DOMAIN c /\ SameShape(c.A, c.B)) =>
    /\ Frob(c.A, c.B) = Frob(c.B, c.A)
    /\ Frob(Transpose(c.A), Transpose(c.B)) = Frob(c.A, c.B)
    /\ Frob(Add(c.A, c.B), c.B) = Frob(c.A, c.B) + Frob(c.B, c.B)
AlignLaws == (Small /\ c.op \in {"align", "alignc", "corr"} /\ SameShape(c.A, c.B) /\ Square(c.A)) =>
    \A r \in {Align(c.A, c.B), AlignRaw(c.A, c.B), Corr(c.A, c.B)} :
        r.dot * r.dot <= r.n1 * r.n2            \* Cauchy-Schwarz: in [-1, 1]
AlignShift == (Small /\ c.op = "align" /\ SameShape(c.A, c.B) /\ Square(c.A)) =>
    /\ Align(Shift(2, c.A), Shift(-1, c.B)) = Align(c.A, c.B)
    /\ Align(c.A, c.A).dot = Align(c.A, c.A).n1
PSDLaws == (c.op = "psd" /\ IsSq /\ Symmetric(c.A)) =>
    /\ PSD(c.A) => (\A i \in 1..Rows(c.A) : c.A[i][i] >= 0)
    /\ (PSD(c.A) /\ PSD(Scale(-1, c.A))) => c.A = Zero(Rows(c.A), Rows(c.A))
    /\ PSD(c.A) => PSD(AddDiag(1, c.A))
    /\ PSD(c.A) => PSD(Had(c.A, c.A))                                 \* Schur product theorem
    /\ PSD(c.A) => PSD(DiagScale([i \in 1..Rows(c.A) |-> IF i = 1 THEN -1 ELSE 1], c.A))
CompLaws == (Small /\ c.op = "comp") => LET A == c.Ms[1] B == c.Ms[2] r == Composite(c.kind, c.Ms, c.w) IN
    /\ Symmetric(r.m)
    /\ c.kind = "average" => LinComb(<<A, B>>, <<1, 1>>) = r.m
    /\ c.kind \in {"sum", "weighted"} => Add(Composite(c.kind, <<A, B>>, <<c.w[1], 0>>).m,
                                            Composite(c.kind, <<A, B>>, <<0, c.w[2]>>).m) = r.m
    /\ c.kind = "product" => Composite("product", <<B, A>>, c.w) = r
ChooseLaws == (c.op = "choose" /\ Expect.out = "ok") => LET b == Expect.i IN
    /\ c.s[b] # -1
    /\ \A i \in DOMAIN c.s : c.s[i] <= c.s[b] /\ (c.s[i] = c.s[b] => i >= b)
PairLaws == (Small /\ c.op = "pairwise") => LET P == Pairwise(c.metric, c.Ms) IN
    \A a, b \in DOMAIN P :
        /\ P[a][b].dot = P[b][a].dot /\ P[a][b].n1 = P[b][a].n2
        /\ P[a][a].dot = P[a][a].n1                                   \* 1 with itself
        /\ P[a][b].dot * P[a][b].dot <= P[a][b].n1 * P[a][b].n2
IdealLaws == (Small /\ c.op = "ideal") => PSD(Outer(c.v, c.v))
Emit == Emitting => PrintT("@GEN " \o ToJson([c |-> c, e |-> Expect]))
=============================================================================
