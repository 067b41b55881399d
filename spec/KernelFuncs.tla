---------------------------- MODULE KernelFuncs ----------------------------
(***************************************************************************)
(* Kernel functions on integer vectors, exactly.  The value of a kernel is *)
(* a term over integers (the reals appear only when the harness evaluates  *)
(* the term):                                                              *)
(*    int    v                   pow    (num/den)^deg                      *)
(*    exp    exp(-num/den)       tanh   tanh(num/den)                      *)
(*    sum    sum of num/den      expsum exp(-g * sum of num/den)           *)
(* All real parameters are p/4 for an integer p.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Map(f(_), n) == [i \in 1..n |-> f(i)]
Dot(x, y)  == SumOf([i \in DOMAIN x |-> x[i] * y[i]])
SS(x, y)   == SumOf([i \in DOMAIN x |-> (x[i] - y[i]) * (x[i] - y[i])])
L1(x, y)   == SumOf([i \in DOMAIN x |-> IF x[i] >= y[i] THEN x[i] - y[i] ELSE y[i] - x[i]])
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)

\* terms num/den over the dimensions where den is positive
Terms(x, num(_, _), y, den(_, _)) ==
    SelectSeq([i \in DOMAIN x |-> <<num(x[i], y[i]), den(x[i], y[i])>>], LAMBDA t : t[2] > 0)
Chi2Terms(x, y) == Terms(x, LAMBDA a, b : (a - b) * (a - b), y, LAMBDA a, b : a + b)
HadTerms(x, y, al) == Terms(x, LAMBDA a, b : Pow(Abs(a), al) * Pow(Abs(b), al), y,
                            LAMBDA a, b : 2 * (Pow(Abs(a), al) + Pow(Abs(b), al)))

Q == 4       \* denominator of real parameters
Numeric == {"linear", "poly", "gaussian", "laplacian", "chi2", "sigmoid", "hadamard"}
Term(k, p, x, y) ==
    CASE k = "linear"    -> [t |-> "int", v |-> Dot(x, y)]
      [] k = "poly"      -> [t |-> "pow", num |-> p.b + p.gamma * Dot(x, y), den |-> Q, deg |-> p.degree]
      [] k = "gaussian"  -> [t |-> "exp", num |-> SS(x, y) * Q * Q, den |-> 2 * p.sigma * p.sigma]
      [] k = "laplacian" -> [t |-> "exp", num |-> p.gamma * L1(x, y), den |-> Q]
      [] k = "chi2"      -> [t |-> "expsum", num |-> p.gamma, den |-> Q, terms |-> Chi2Terms(x, y)]
      [] k = "sigmoid"   -> [t |-> "tanh", num |-> p.offset + p.gamma * Dot(x, y), den |-> Q]
      [] k = "hadamard"  -> [t |-> "sum", terms |-> HadTerms(x, y, p.alpha)]

Negative(v) == \E i \in DOMAIN v : v[i] < 0
\* outcome of a call on two vectors of equal length
NumOutcome(k, p, x, y) ==
    IF Len(x) # Len(y) THEN [out |-> "ValueError"]
    ELSE IF k = "chi2" /\ (Negative(x) \/ Negative(y)) THEN [out |-> "Chi2NegativeValuesException"]
    ELSE [out |-> "ok", term |-> Term(k, p, x, y)]

\* ------------------------------------------------------ inputs of any kind --
\* an input is described by its shape and what its elements are
Convertible == {"num", "numstr", "bool", "objnum"}
RECURSIVE Squeezed(_)     \* trailing dimensions of size one do not count
Squeezed(s) == IF s = <<>> THEN <<>>
               ELSE <<Head(s)>> \o SelectSeq(Tail(s), LAMBDA d : d # 1)
Vector(s)   == Len(Squeezed(s)) = 1
GoodInput(d) == Vector(d.shape) /\ d.elem \in Convertible
InputOutcome(dx, dy) ==
    IF GoodInput(dx) /\ GoodInput(dy) /\ Squeezed(dx.shape) = Squeezed(dy.shape) THEN "ok" ELSE "ValueError"

\* ------------------------------------------------------- categorical vectors --
Matches(x, y) == Cardinality({i \in DOMAIN x : x[i] = y[i]})
MatchOutcome(x, y, perc) ==
    IF Len(x) # Len(y) THEN [out |-> "ValueError"]
    ELSE [out |-> "ok", num |-> Matches(x, y), den |-> IF perc THEN Len(x) ELSE 1]

\* ------------------------------------------------------- wrapped callables --
CallableOutcome(callable, nparams) == IF ~callable \/ nparams < 2 THEN "TypeError" ELSE "ok"
=============================================================================
