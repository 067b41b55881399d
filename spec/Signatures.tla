----------------------------- MODULE Signatures -----------------------------
(***************************************************************************)
(* The published interface: argument order and defaults of every public    *)
(* callable, and the names of the package.  A call gives some optional     *)
(* arguments (by position or by name); its meaning is the completed        *)
(* assignment of all optional arguments.  Values are texts which the       *)
(* harness turns into Python values ("alt": some other valid value).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Only        \* names of callables to enumerate; {} for all
VARIABLE c
P(n, d) == [n |-> n, d |-> d]
Skip == P("skip_input_checks", "False")
Table == [
  HadamardKernel |-> <<P("alpha", "3"), Skip>>,
  PolyKernel |-> <<P("degree", "3"), P("gamma", "1.0"), P("b", "1.0"), Skip>>,
  GaussianKernel |-> <<P("sigma", "2.0"), Skip>>,
  LaplacianKernel |-> <<P("gamma", "1.0"), Skip>>,
  Chi2Kernel |-> <<P("gamma", "1.0"), Skip>>,
  SigmoidKernel |-> <<P("gamma", "1.0"), P("offset", "1.0"), Skip>>,
  LinearKernel |-> <<Skip>>,
  MatchCountKernel |-> <<P("return_perc", "True"), Skip>>,
  KernelFromCallable |-> <<P("name", "None")>>,
  KernelMatrix |-> <<P("normalized", "True"), P("name", "'KernelMatrix'")>>,
  KernelMatrix_attach_to |-> <<P("name_one", "'sample'"), P("sample_two", "None"), P("name_two", "None")>>,
  KernelMatrix_get_attr |-> <<P("value_if_not_found", "None")>>,
  KernelMatrix_normalize |-> <<P("method", "'cosine'")>>,
  KernelMatrixPrecomputed |-> <<P("name", "None")>>,
  ConstantKernelMatrix |-> <<P("value", "0.0"), P("name", "'Constant'"), P("dtype", "'float'")>>,
  KernelSet |-> <<P("km_list", "None"), P("name", "'KernelSet'"), P("num_samples", "None")>>,
  KernelSet_take |-> <<P("name", "'SelectedKMs'")>>,
  KernelSet_attach_to |-> <<P("name", "'sample'"), P("attr_name", "None"), P("attr_value", "None")>>,
  KernelSet_get_attr |-> <<P("value_if_not_found", "None")>>,
  SumKernel |-> <<P("name", "'SumKernel'")>>,
  ProductKernel |-> <<P("name", "'ProductKernel'")>>,
  AverageKernel |-> <<P("name", "'AverageKernel'")>>,
  WeightedAverageKernel |-> <<P("name", "'WeightedAverageKernel'")>>,
  KernelBucket |-> <<P("poly_degree_values", "(2, 3, 4)"), P("rbf_sigma_values", "(2**-5, 2**-3, 2**-1, 2, 8, 32)"),
                     P("laplace_gamma_values", "(2**-5, 2**-3, 2**-1, 2, 8, 32)"), P("sigmoid_gamma_values", "(2**-5, 2**-3, 2**-1, 2, 8, 32)"),
                     P("sigmoid_offset_values", "(-2.0, 1.0, 2.0)"), P("name", "'KernelBucket'"), P("normalize_kernels", "True"), Skip>>,
  make_kernel_bucket |-> <<P("strategy", "'exhaustive'"), P("normalize_kernels", "True"), Skip>>,
  pairwise_similarity |-> <<P("metric", "'corr'")>>,
  find_optimal_kernel |-> <<P("method", "'cv_risk'")>>,
  rank_kernels |-> <<P("method", "'align/corr'")>>,
  CV_ranking |-> <<P("num_folds", "3"), P("estimator_name", "'SVM'")>>,
  get_estimator |-> <<P("learner_id", "'svm'")>>,
  is_positive_semidefinite |-> <<P("tolerance", "1e-6"), P("verbose", "False")>>,
  is_PSD |-> <<P("tolerance", "1e-6"), P("verbose", "False")>>,
  normalize_km |-> <<P("method", "'cosine'")>>,
  normalize_km_2sample |-> <<P("method", "'cosine'")>>,
  alignment_centered |-> <<P("value_if_zero_division", "'raise'"), P("centered_already", "False")>>,
  linear_combination |-> <<P("norm_weights", "False")>>,
  KernelMachine |-> <<P("k_func", "GaussianKernel(2.0)"), P("learner_id", "'SVC'"), P("normalized", "False")>>,
  KernelMachineRegressor |-> <<P("k_func", "GaussianKernel(2.0)"), P("learner_id", "'SVR'"), P("normalized", "False")>>,
  OptimalKernelSVC |-> <<P("k_bucket", "'exhaustive'"), P("method", "'cv_risk'"), P("C", "1.0"), P("shrinking", "True"), P("tol", "1e-3")>>,
  OptimalKernelSVR |-> <<P("k_bucket", "'exhaustive'"), P("method", "'cv_risk'"), P("C", "1.0"), P("epsilon", "0.1"), P("shrinking", "True"), P("tol", "1e-3")>>
]
Names == DOMAIN Table
Arity(f) == Len(Table[f])
\* the optional arguments 1..p are given by position, those of K by name
Calls(f) == {[f |-> f, p |-> p, k |-> K] : p \in 0..Arity(f), K \in SUBSET (1..Arity(f))}
Valid(x) == \A i \in x.k : i > x.p
Given(x) == (1..x.p) \cup x.k
\* What the call means
Completed(x) == [i \in 1..Arity(x.f) |-> [n |-> Table[x.f][i].n, v |-> IF i \in Given(x) THEN "alt" ELSE Table[x.f][i].d]]
Wanted == IF Only = {} THEN Names ELSE Only
Init == \E f \in Wanted : \E x \in Calls(f) : Valid(x) /\ c = x
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("@GEN " \o ToJson([c |-> [f |-> c.f, p |-> c.p, k |-> {Table[c.f][i].n : i \in c.k}], full |-> Completed(c)]))

\* ------------------------------------------------------------------ laws --
\* the way an argument is passed does not matter, and an omitted one is the published default
SameByPosition == \A q \in 0..Arity(c.f) :
                    LET y == [c EXCEPT !.p = q, !.k = {i \in Given(c) : i > q}]
                    IN  (1..q \subseteq Given(c)) => Completed(y) = Completed(c)
Defaults == Given(c) = {} => \A i \in 1..Arity(c.f) : Completed(c)[i].v = Table[c.f][i].d
Distinct == \A i, j \in 1..Arity(c.f) : Table[c.f][i].n = Table[c.f][j].n => i = j
Emitted == Emit
=============================================================================
