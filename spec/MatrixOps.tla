----------------------------- MODULE MatrixOps -----------------------------
(***************************************************************************)
(* Exact (integer / rational) definitions of the operations of             *)
(* kernelmethods on kernel matrices.  A matrix is a sequence of rows of    *)
(* integers.  Irrational results are given by integers from which the      *)
(* caller forms the value, e.g. num / sqrt(den).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC      \* TLC: TLCEval (values are computed once)

RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN 0 ELSE SumF(F, n - 1) + F(n)
RECURSIVE ProdF(_, _)
ProdF(F(_), n) == IF n = 0 THEN 1 ELSE ProdF(F, n - 1) * F(n)

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Square(A) == Rows(A) = Cols(A)
Symmetric(A) == Square(A) /\ \A i, j \in 1..Rows(A) : A[i][j] = A[j][i]
Transpose(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
SameShape(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B)

RowSum(A, i) == SumF(LAMBDA j : A[i][j], Cols(A))
ColSum(A, j) == SumF(LAMBDA i : A[i][j], Rows(A))
Total(A)     == SumF(LAMBDA i : RowSum(A, i), Rows(A))

Map2(F(_, _), A) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> F(i, j)]])
Scale(c, A) == Map2(LAMBDA i, j : c * A[i][j], A)
Add(A, B)   == Map2(LAMBDA i, j : A[i][j] + B[i][j], A)
Had(A, B)   == Map2(LAMBDA i, j : A[i][j] * B[i][j], A)
Shift(c, A) == Map2(LAMBDA i, j : A[i][j] + c, A)
AddDiag(c, A) == Map2(LAMBDA i, j : IF i = j THEN A[i][j] + c ELSE A[i][j], A)
Outer(v, w) == [i \in DOMAIN v |-> [j \in DOMAIN w |-> v[i] * w[j]]]
DiagScale(d, A) == Map2(LAMBDA i, j : d[i] * A[i][j] * d[j], A)
Diag(A) == [i \in 1..Rows(A) |-> A[i][i]]
Zero(n, m) == [i \in 1..n |-> [j \in 1..m |-> 0]]

\* ---- centering: the centered matrix is Centered(A) / n^2 -------------------
Centered(A) == LET n == Rows(A)
                   rs == TLCEval([i \in 1..n |-> RowSum(A, i)])
                   cs == TLCEval([i \in 1..n |-> ColSum(A, i)])
                   tt == TLCEval(Total(A))
               IN  Map2(LAMBDA i, j : n * n * A[i][j] - n * rs[i] - n * cs[j] + tt, A)

\* ---- Frobenius product, alignment, correlation -----------------------------
Frob(A, B) == SumF(LAMBDA i : SumF(LAMBDA j : A[i][j] * B[i][j], Cols(A)), Rows(A))
\* alignment = dot / sqrt(n1 * n2)
Align(A, B) == LET CA == TLCEval(Centered(A))
                   CB == TLCEval(Centered(B))
               IN  [dot |-> Frob(CA, CB), n1 |-> Frob(CA, CA), n2 |-> Frob(CB, CB)]
AlignRaw(A, B) == [dot |-> Frob(A, B), n1 |-> Frob(A, A), n2 |-> Frob(B, B)]
AlignDefined(r) == r.n1 # 0 /\ r.n2 # 0
Corr(A, B) == LET N == Rows(A) * Cols(A) IN
    [dot |-> N * Frob(A, B) - Total(A) * Total(B), n1 |-> N * Frob(A, A) - Total(A) * Total(A),
     n2 |-> N * Frob(B, B) - Total(B) * Total(B)]

\* ---- cosine normalization: entry = num / sqrt(den) -------------------------
NormDefined(A) == \A i \in 1..Rows(A) : A[i][i] > 0
HasZeroDiag(A) == \E i \in 1..Rows(A) : A[i][i] = 0
NormDen(dx, dy) == Outer(dx, dy)

\* ---- positive semi-definiteness: all principal minors are >= 0 -------------
RECURSIVE DetP(_, _, _)
\* determinant of the submatrix of A with the given (ordered) rows and columns
DetP(A, rs, cs) ==
    IF Len(rs) = 0 THEN 1
    ELSE IF Len(rs) = 1 THEN A[rs[1]][cs[1]]
    ELSE SumF(LAMBDA k : (IF k % 2 = 1 THEN 1 ELSE -1) * A[rs[1]][cs[k]] *
                         DetP(A, Tail(rs), SubSeq(cs, 1, k - 1) \o SubSeq(cs, k + 1, Len(cs))), Len(cs))
RECURSIVE Ascending(_, _)
Ascending(S, n) == IF n = 0 THEN <<>>
                   ELSE IF n \in S THEN Append(Ascending(S, n - 1), n) ELSE Ascending(S, n - 1)
Minor(A, S) == LET q == Ascending(S, Rows(A)) IN DetP(A, q, q)
PSD(A) == Symmetric(A) /\ \A S \in SUBSET (1..Rows(A)) : Minor(A, S) >= 0

\* ---- linear combinations and composites of a sequence of matrices ----------
RECURSIVE Comb(_, _, _)
Comb(Ms, w, k) == IF k = 0 THEN Zero(Rows(Ms[1]), Cols(Ms[1])) ELSE Add(Comb(Ms, w, k - 1), Scale(w[k], Ms[k]))
LinComb(Ms, w) == Comb(Ms, w, Len(Ms))
RECURSIVE HadAll(_, _)
HadAll(Ms, k) == IF k = 1 THEN Ms[1] ELSE Had(HadAll(Ms, k - 1), Ms[k])
Ones(k) == [i \in 1..k |-> 1]
SumSeq(w) == SumF(LAMBDA i : w[i], Len(w))
Composite(kind, Ms, w) ==          \* value is .m / .den
    CASE kind = "sum"      -> [m |-> LinComb(Ms, w), den |-> 1]
      [] kind = "product"  -> [m |-> HadAll(Ms, Len(Ms)), den |-> 1]
      [] kind = "average"  -> [m |-> LinComb(Ms, Ones(Len(Ms))), den |-> Len(Ms)]
      [] kind = "weighted" -> [m |-> LinComb(Ms, w), den |-> 1]

\* ------------------------------------------------- similarity and selection --
Pairwise(metric, Ms) ==
    [a \in DOMAIN Ms |-> [b \in DOMAIN Ms |-> IF metric = "corr" THEN Corr(Ms[a], Ms[b]) ELSE Align(Ms[a], Ms[b])]]
\* index of the first highest score (-1: undefined score)
Best(s) == CHOOSE b \in DOMAIN s : /\ s[b] # -1
                                   /\ \A i \in DOMAIN s : s[i] <= s[b] /\ (s[i] = s[b] => i >= b)
=============================================================================
