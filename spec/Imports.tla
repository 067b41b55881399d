------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* The public names of the package: whatever is imported first, and in     *)
(* whatever order, the package's name is the module's object.  A step      *)
(* loads a module (and what it needs), a name, or all public names.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps
VARIABLES steps, loaded      \* loaded: modules known to be loaded
Home == [KernelMatrix |-> "base", BaseKernelFunction |-> "base", KernelSet |-> "base",
         KernelMethodsException |-> "config", KMAccessError |-> "config", KMNormError |-> "config", KMSetAdditionError |-> "config",
         PolyKernel |-> "numeric_kernels", GaussianKernel |-> "numeric_kernels", LaplacianKernel |-> "numeric_kernels",
         LinearKernel |-> "numeric_kernels", Chi2Kernel |-> "numeric_kernels", SigmoidKernel |-> "numeric_kernels", HadamardKernel |-> "numeric_kernels",
         KernelBucket |-> "sampling",
         KernelMachine |-> "algorithms", KernelMachineRegressor |-> "algorithms", OptimalKernelSVC |-> "algorithms", OptimalKernelSVR |-> "algorithms"]
Public == DOMAIN Home
Modules == {"base", "config", "numeric_kernels", "categorical", "sampling", "ranking", "operations", "algorithms", "utils"}
\* modules that an entry makes available, at least
Entry == {"kernelmethods." \o m : m \in Modules} \cup {"kernelmethods:" \o n : n \in Public} \cup {"kernelmethods", "*"}
Brings(e) == LET m == {x \in Modules : e = "kernelmethods." \o x}
                 n == {x \in Public : e = "kernelmethods:" \o x}
             IN  m \cup {Home[x] : x \in n} \cup (IF e = "*" THEN {Home[x] : x \in Public} ELSE {})
Init == steps = <<>> /\ loaded = {}
Import(e) == /\ Len(steps) < MaxSteps
             /\ \A i \in DOMAIN steps : steps[i] # e
             /\ steps' = Append(steps, e)
             /\ loaded' = loaded \cup Brings(e)
Next == \E e \in Entry : Import(e)
Spec == Init /\ [][Next]_<<steps, loaded>>
\* what a name means does not depend on the order of the imports
Resolve(n) == <<Home[n], n>>
Stable == \A n \in Public : Resolve(n)[1] \in Modules
Monotone == [][loaded \subseteq loaded']_<<steps, loaded>>
Emit == IF steps = <<>> THEN TRUE
        ELSE PrintT("@GEN " \o ToJson([steps |-> steps, names |-> {[n |-> x, m |-> Home[x]] : x \in Public}]))
=============================================================================
