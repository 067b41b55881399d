--------------------------- MODULE FixedMatrices ---------------------------
(***************************************************************************)
(* Matrices that are given rather than computed: KernelMatrixPrecomputed   *)
(* (which inputs it accepts, what numpy-style indexing of it returns),     *)
(* ConstantKernelMatrix (indexed like a KernelMatrix), and plain arrays    *)
(* put into a KernelSet.  One state per case; Source = "file": the cases   *)
(* of the file KM_TRACES.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Source, Ops, MaxN
VARIABLE c
vars == <<c>>
NR(s) == 3
ZS(s) == FALSE
K == INSTANCE KernelMatrix WITH NRows <- NR, ZeroSelf <- ZS, Keep <- FALSE
M == INSTANCE MatrixOps

\* ------------------------------------------------------- numpy-style indexing
\* positions (0-based) selected on an axis of length n, in order; negative integers count from the end
SliceSeq(ix, n) == LET S == K!SliceSet(ix.a, ix.b, ix.c, n)
                       q == K!SortedSeq(S, n)
                   IN  IF ix.c # K!None /\ ix.c < 0 THEN [i \in DOMAIN q |-> q[Len(q) + 1 - i]] ELSE q
InRange(v, n) == v >= -n /\ v < n
Wrap(v, n) == IF v < 0 THEN v + n ELSE v
ValidIx(ix, n) ==
    CASE ix.k = "int"   -> InRange(ix.v, n)
      [] ix.k = "slice" -> ix.c # 0
      [] ix.k = "list"  -> \A i \in DOMAIN ix.v : InRange(ix.v[i], n)
      [] OTHER -> FALSE
Pos(ix, n) ==
    CASE ix.k = "int"   -> <<Wrap(ix.v, n)>>
      [] ix.k = "slice" -> SliceSeq(ix, n)
      [] ix.k = "list"  -> [i \in DOMAIN ix.v |-> Wrap(ix.v[i], n)]
Flat2(p, q) == [k \in 1..(Len(p) * Len(q)) |-> <<p[((k - 1) \div Len(q)) + 1], q[((k - 1) % Len(q)) + 1]>>]
Got(shape, cells) == [out |-> "ok", shape |-> shape, cells |-> cells]
Denied == [out |-> "KMAccessError"]
\* both dimensions given: two lists, or a list and an integer, go pairwise; everything else is the outer product
Pair(ix, iy, n) ==
    IF ~ValidIx(ix, n) \/ ~ValidIx(iy, n) THEN Denied
    ELSE LET p == Pos(ix, n) q == Pos(iy, n)
             dim(x, r) == IF x.k = "int" THEN <<>> ELSE <<Len(r)>>
         IN  IF ix.k = "list" /\ iy.k = "list" /\ Len(p) # Len(q) /\ Len(p) # 1 /\ Len(q) # 1 THEN Denied
             ELSE IF ix.k = "list" /\ iy.k = "list"
             THEN LET m == IF Len(p) = 1 THEN Len(q) ELSE Len(p)
                  IN  Got(<<m>>, [k \in 1..m |-> <<p[IF Len(p) = 1 THEN 1 ELSE k], q[IF Len(q) = 1 THEN 1 ELSE k]>>])
             ELSE Got(dim(ix, p) \o dim(iy, q), Flat2(p, q))
\* only the first dimension given: rows
All == [k |-> "slice", a |-> K!None, b |-> K!None, c |-> K!None]
Single(ix, n) == Pair(ix, All, n)
Values(A, g) == IF g.out # "ok" THEN g
                ELSE [out |-> "ok", shape |-> g.shape,
                      v |-> [k \in DOMAIN g.cells |-> A[g.cells[k][1] + 1][g.cells[k][2] + 1]]]

\* ------------------------------------------------------------ acceptance
Accepted(A) == M!Square(A) /\ M!Symmetric(A)
\* a KernelSet fed with plain matrices one after the other: outcome of each addition
RECURSIVE Feed(_, _, _)
Feed(ms, num, q) ==
    IF q = <<>> THEN [outs |-> <<>>, ms |-> ms, num |-> num]
    ELSE LET A == Head(q)
             out == IF ~Accepted(A) THEN "ValueError"
                    ELSE IF num # 0 /\ num # Len(A) THEN "KMSetAdditionError" ELSE "ok"
             r == IF out = "ok" THEN Feed(Append(ms, A), Len(A), Tail(q)) ELSE Feed(ms, num, Tail(q))
         IN  [r EXCEPT !.outs = <<out>> \o @]

\* ------------------------------------------------------------ constant
Block(ix, iy, n) ==
    LET r == K!Resolve(ix, n) s == K!Resolve(iy, n)
    IN  IF r.ok /\ s.ok THEN [out |-> "ok", rows |-> Cardinality(r.set), cols |-> Cardinality(s.set)]
        ELSE IF K!IsPlain(ix) /\ K!IsPlain(iy) THEN Denied ELSE [out |-> "error"]

\* ------------------------------------------------------------ cases
Nn == K!None
Ints(n) == {[k |-> "int", v |-> v] : v \in (-n - 1)..n}
Slices(n) == {[k |-> "slice", a |-> a, b |-> b, c |-> s] :
                a \in {Nn, 0, 1, -1, n}, b \in {Nn, 1, -1, n, n + 1}, s \in {Nn, 2, -1}}
ZeroStep == {[k |-> "slice", a |-> Nn, b |-> Nn, c |-> 0]}
Lists(n) == {[k |-> "list", v |-> q] : q \in [1..1 -> (-n - 1)..n] \cup [1..2 -> (-1)..n]}
           \cup {[k |-> "list", v |-> <<0, 0, n - 1>>]}
Bads == {[k |-> b] : b \in {"float", "float0", "npfloat", "nan", "str", "strdigit", "list-float", "list-str", "farray",
                            "complex", "obj"}}
BadsConst == {[k |-> b] : b \in {"float", "npfloat", "nan", "true", "false", "npbool", "none", "str", "strdigit",
                                 "ellipsis", "complex", "obj", "nested", "list-none"}}
\* by kind, because TLC cannot put records whose field v is an integer or a sequence into one set
Kinds == {"int", "slice", "list", "bad"}
Ix(kd, n) == CASE kd = "int" -> Ints(n) [] kd = "slice" -> Slices(n) \cup ZeroStep [] kd = "list" -> Lists(n) [] kd = "bad" -> Bads
CIx(kd, n) == CASE kd = "int" -> Ints(n) [] kd = "slice" -> Slices(n) \cup ZeroStep
                [] kd = "list" -> Lists(n) \cup {[k |-> "list", v |-> <<>>]} [] kd = "bad" -> BadsConst
Num(n) == [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN 10 * i + j ELSE 10 * j + i]]   \* symmetric, entries tell the cell
Ent == (-1)..1
Mats(n, m) == [1..n -> [1..m -> Ent]]
SomeMats == {<<<<1>>>>, <<<<2>>>>, <<<<1, 2>>, <<2, 1>>>>, <<<<1, 2>>, <<3, 1>>>>, <<<<1, 2>>>>, <<<<1>>, <<2>>>>,
             <<<<0, 0>>, <<0, 0>>>>, <<<<1, 2, 3>>, <<2, 4, 5>>, <<3, 5, 6>>>>, <<<<1, 2, 3>>, <<2, 4, 5>>, <<3, 7, 6>>>>}
EnumInit ==
    \/ "pre" \in Ops /\ \E A \in Mats(1, 1) \cup Mats(2, 2) \cup Mats(1, 2) \cup Mats(2, 1) \cup Mats(1, 3) \cup Mats(2, 3)
                                \cup Mats(3, 2) \cup SomeMats \cup Mats(3, 3) : c = [op |-> "pre", A |-> A]
    \/ "prepair" \in Ops /\ \E n \in 1..MaxN : \E kx \in Kinds, ky \in Kinds : \E ix \in Ix(kx, n) : \E iy \in Ix(ky, n) :
            c = [op |-> "prepair", A |-> Num(n), ix |-> ix, iy |-> iy]
    \/ "presingle" \in Ops /\ \E n \in 1..(MaxN + 1) : \E kx \in Kinds : \E ix \in Ix(kx, n) : c = [op |-> "presingle", A |-> Num(n), ix |-> ix]
    \/ "const" \in Ops /\ \E n \in 1..5 : c = [op |-> "const", n |-> n]
    \/ "constpair" \in Ops /\ \E n \in 1..MaxN : \E kx \in Kinds, ky \in Kinds : \E ix \in CIx(kx, n) : \E iy \in CIx(ky, n) :
            c = [op |-> "constpair", n |-> n, ix |-> ix, iy |-> iy]
    \/ "feed" \in Ops /\ \E q \in [1..2 -> SomeMats] \cup [1..3 -> SomeMats] : c = [op |-> "feed", q |-> q]
FileCases == ndJsonDeserialize(IOEnv.KM_TRACES)
Init == IF Source = "enum" THEN EnumInit ELSE \E i \in DOMAIN FileCases : c = FileCases[i]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Expect ==
    CASE c.op = "pre" -> IF Accepted(c.A) THEN [out |-> "ok", diag |-> M!Diag(c.A), n |-> Len(c.A)]
                         ELSE [out |-> "ValueError"]
      [] c.op = "prepair" -> Values(c.A, Pair(c.ix, c.iy, Len(c.A)))
      [] c.op = "presingle" -> Values(c.A, Single(c.ix, Len(c.A)))
      [] c.op = "const" -> [out |-> "ok"]
      [] c.op = "constpair" -> Block(c.ix, c.iy, c.n)
      [] c.op = "feed" -> Feed(<<>>, 0, c.q)

\* ------------------------------------------------------------ laws
Small == Source = "enum"
\* element access is what it is in the matrix, from either end, and symmetric
ElementLaw == (Small /\ c.op = "prepair" /\ c.ix.k = "int" /\ c.iy.k = "int" /\ Expect.out = "ok") =>
    LET n == Len(c.A) IN
    /\ Expect.shape = <<>> /\ Len(Expect.v) = 1
    /\ Expect.v = Values(c.A, Pair(c.iy, c.ix, n)).v
    /\ c.ix.v < 0 => Expect.v = Values(c.A, Pair([k |-> "int", v |-> c.ix.v + n], c.iy, n)).v
\* a full reversed slice is the mirror image; sizes multiply
ShapeLaw == (Small /\ c.op = "prepair" /\ Expect.out = "ok") =>
    LET RECURSIVE Prod(_)
        Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
    IN  Len(Expect.v) = Prod(Expect.shape)
ConstLaw == (Small /\ c.op = "constpair" /\ Expect.out = "ok") => Expect.rows \in 1..c.n /\ Expect.cols \in 1..c.n
FeedLaw == (Small /\ c.op = "feed") =>
    /\ \A i \in DOMAIN Expect.ms : Accepted(Expect.ms[i]) /\ Len(Expect.ms[i]) = Expect.num
    /\ Len(Expect.outs) = Len(c.q)
    /\ Len(Expect.ms) = Cardinality({i \in DOMAIN c.q : Expect.outs[i] = "ok"})
Emit == PrintT("@GEN " \o ToJson([c |-> c, e |-> Expect]))
=============================================================================
