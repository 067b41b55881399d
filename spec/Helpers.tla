------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The helpers on which kernel functions (also the user's own) are built:  *)
(* what they accept, what they return.  One state per case.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Source, Ops, MaxAxis, Emitting
VARIABLE c
vars == <<c>>
Range(q) == {q[i] : i \in DOMAIN q}
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

\* ------------------------------------------------------------ vectors and matrices
\* the axes kept: all of the first few, and the later ones unless of length one
Kept(s, few) == SelectSeq([i \in DOMAIN s |-> IF i > few /\ s[i] = 1 THEN 0 ELSE s[i]], LAMBDA x : x # 0)
\* (lengths of zero are written -1)
Len0(n) == IF n = -1 THEN 0 ELSE n
Convertible(elem, want) == want = "none" \/ elem \notin {"badstr", "dict"}
IsNumber(elem) == elem \in {"int", "float"}
Type(elem, want) == IF want = "none" THEN "same" ELSE IF want = "number" /\ IsNumber(elem) THEN "same" ELSE "float64"
Fits(s, few) == Len(Kept(s, few)) = few
Vector(s, elem, want) == IF Fits(s, 1) /\ Convertible(elem, want)
                         THEN [out |-> "ok", shape |-> <<Len0(Kept(s, 1)[1])>>, type |-> Type(elem, want)]
                         ELSE [out |-> "ValueError"]
Matrix(s, elem, want, cols) == IF Fits(s, 2) /\ Convertible(elem, want) /\ (cols = -1 \/ Len0(Kept(s, 2)[2]) = cols)
                               THEN [out |-> "ok", shape |-> [i \in 1..2 |-> Len0(Kept(s, 2)[i])], type |-> Type(elem, want)]
                               ELSE [out |-> "ValueError"]
Pair(x, y, want) == LET v == Vector(x.s, x.elem, want)  w == Vector(y.s, y.elem, want)
                    IN  IF v.out = "ok" /\ w.out = "ok" /\ v.shape = w.shape THEN [out |-> "ok", x |-> v, y |-> w] ELSE [out |-> "ValueError"]

\* ------------------------------------------------------------ numbers
MinOf(q) == CHOOSE x \in Range(q) : \A y \in Range(q) : x <= y
MaxOf(q) == CHOOSE x \in Range(q) : \A y \in Range(q) : x >= y
\* rescaling to [0, 1]: numerators over a common denominator (1 where all are equal)
Scaled(q) == LET a == MinOf(q)  b == MaxOf(q) IN [out |-> "ok", num |-> [i \in DOMAIN q |-> q[i] - a], den |-> IF a = b THEN 1 ELSE b - a]
NonFinite(A) == \E i \in DOMAIN A : \E j \in DOMAIN A[i] : A[i][j] # "num"
NotSymmetric(A) == \E i, j \in DOMAIN A : A[i][j] # A[j][i]

\* ------------------------------------------------------------ other objects
Callable(callable, n, min) == IF callable /\ n >= min THEN "ok" ELSE "TypeError"
Iterables == {"list", "tuple", "set", "dict", "array", "range", "frozenset"}
IsIter(kind, n, min) == kind \in Iterables /\ n >= min

Axes == {-1} \cup 1..MaxAxis
Elems == {"int", "float", "numstr", "bool", "objnum", "badstr", "dict"}
Wants == {"number", "float64", "none"}
EnumCases ==
    UNION {CASE op = "vector" -> {[op |-> "vector", s |-> s, elem |-> e, want |-> w] : s \in Seqs(Axes, 0, 3), e \in Elems, w \in Wants}
             [] op = "matrix" -> {[op |-> "matrix", s |-> s, elem |-> e, want |-> w, cols |-> k] :
                                     s \in Seqs(Axes, 0, 3) \cup {<<2, 1, 1, 1>>, <<1, 2, 1, 1>>, <<2, 2, 1, 2>>}, e \in {"int", "float", "numstr", "badstr"}, w \in Wants,
                                     k \in {-1, 0, 1, 2}}
             [] op = "pair"   -> {[op |-> "pair", x |-> [s |-> s, elem |-> e], y |-> [s |-> t, elem |-> f], want |-> w] :
                                     s \in Seqs(1..MaxAxis, 0, 2), t \in Seqs(1..MaxAxis, 0, 2), e \in {"int", "float", "badstr"}, f \in {"float", "bool", "dict"}, w \in {"number", "float64"}}
             [] op = "scale"  -> {[op |-> "scale", q |-> q] : q \in Seqs(-2..2, 1, 4)}
             [] op = "finite" -> {[op |-> "finite", F |-> [i \in 1..n |-> [j \in 1..m |-> a[(i - 1) * m + j]]]] :
                                     n \in 1..2, m \in 1..2, a \in [1..4 -> {"num", "nan", "inf", "-inf"}]}
             [] op = "sym"    -> {[op |-> "sym", A |-> [i \in 1..n |-> [j \in 1..n |-> a[(i - 1) * n + j]]]] : n \in 1..2, a \in [1..4 -> -1..1]}
             [] op = "callable" -> {[op |-> "callable", callable |-> b, n |-> n, min |-> m] : b \in BOOLEAN, n \in 0..4, m \in 0..4}
             [] op = "iter"   -> {[op |-> "iter", kind |-> k, n |-> n, min |-> m] : k \in Iterables \cup {"str", "int", "none", "float", "object"}, n \in 0..4, m \in 0..4}
           : op \in Ops}
FileCases == ndJsonDeserialize(IOEnv.KM_TRACES)
Init == IF Source = "enum" THEN c \in EnumCases ELSE \E i \in DOMAIN FileCases : c = FileCases[i]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Expect == CASE c.op = "vector" -> Vector(c.s, c.elem, c.want)
            [] c.op = "matrix" -> Matrix(c.s, c.elem, c.want, c.cols)
            [] c.op = "pair"   -> Pair(c.x, c.y, c.want)
            [] c.op = "scale"  -> Scaled(c.q)
            [] c.op = "finite" -> [out |-> "ok", v |-> NonFinite(c.F)]
            [] c.op = "sym"    -> [out |-> "ok", v |-> NotSymmetric(c.A)]
            [] c.op = "callable" -> [out |-> Callable(c.callable, c.n, c.min)]
            [] c.op = "iter"   -> [out |-> "ok", v |-> IsIter(c.kind, c.n, c.min)]

\* ------------------------------------------------------------ laws
Product(s) == IF s = <<>> THEN 1 ELSE LET F[i \in 0..Len(s)] == IF i = 0 THEN 1 ELSE F[i-1] * Len0(s[i]) IN F[Len(s)]
\* no element is lost or invented
Size == /\ (c.op = "vector" /\ Expect.out = "ok") => Expect.shape[1] = Product(c.s)
        /\ (c.op = "matrix" /\ Expect.out = "ok") => Expect.shape[1] * Expect.shape[2] = Product(c.s)
\* a vector is accepted whatever number of trailing axes of length one it has
Trailing == c.op = "vector" => Vector(c.s, c.elem, c.want).out = (IF c.s = <<>> THEN "ValueError" ELSE Vector(Append(c.s, 1), c.elem, c.want).out)
Mirror == c.op = "pair" => Pair(c.x, c.y, c.want).out = Pair(c.y, c.x, c.want).out
ScaleLaws == c.op = "scale" => LET e == Scaled(c.q) IN
    /\ \A i \in DOMAIN c.q : 0 <= e.num[i] /\ e.num[i] <= e.den
    /\ \E i \in DOMAIN c.q : e.num[i] = 0
    /\ (\E i, j \in DOMAIN c.q : c.q[i] # c.q[j]) => \E i \in DOMAIN c.q : e.num[i] = e.den
    /\ \A i, j \in DOMAIN c.q : (c.q[i] < c.q[j]) <=> (e.num[i] < e.num[j])
    /\ e = Scaled([i \in DOMAIN c.q |-> c.q[i] + 7])
    /\ LET f == Scaled([i \in DOMAIN c.q |-> 3 * c.q[i]]) IN \A i \in DOMAIN c.q : f.num[i] * e.den = e.num[i] * f.den
IterLaws == c.op = "iter" => (IsIter(c.kind, c.n, c.min) => IsIter(c.kind, c.n + 1, c.min) /\ (c.min = 0 \/ IsIter(c.kind, c.n, c.min - 1)))
Emit == Emitting => PrintT("@GEN " \o ToJson([c |-> c, e |-> Expect]))
=============================================================================
