------------------------------ MODULE KMIndex ------------------------------
(***************************************************************************)
(* Enumeration of index objects on an axis of length N (1..MaxN), used     *)
(* for element access, with laws about what they select.  Each case is     *)
(* printed and replayed against the real code; KMTrace decides.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxList
NR(s) == 3
ZS(s) == FALSE
K == INSTANCE KernelMatrix WITH NRows <- NR, ZeroSelf <- ZS, Keep <- FALSE

VARIABLES n, ix
vars == <<n, ix>>

Nn == K!None
Bounds(k) == {Nn} \cup ((-k - 1)..(k + 1))
Steps == {Nn, 1, 2, 3, -1, -2, 0}
Ints(k) == {[k |-> "int", v |-> v] : v \in (-k - 1)..(k + 2)}
Slices(k) == {[k |-> "slice", a |-> a, b |-> b, c |-> c] : a \in Bounds(k), b \in Bounds(k), c \in Steps}
Lists(k) == {[k |-> "list", v |-> q] : q \in UNION {[1..m -> (-1)..k] : m \in 0..MaxList}}
BadKinds == {"float", "float0", "npfloat", "nan", "true", "false", "npbool", "none", "str", "strdigit", "ellipsis",
             "list-float", "list-mixed", "list-str", "list-none", "list-bool", "nested", "farray", "barray", "mask", "list-npbool", "list-mixbool", "oarray", "complex", "obj"}
Bads == {[k |-> b] : b \in BadKinds}

Init == n \in 1..MaxN /\ ix \in Ints(n) \cup Slices(n) \cup Lists(n) \cup Bads
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

R == K!Resolve(ix, n)
\* laws
InRange  == R.set \subseteq 0..(n - 1)
OkNonEmpty == R.ok => R.set # {}
IntLaw   == ix.k = "int" => (R.ok <=> ix.v \in 0..(n - 1)) /\ (R.ok => R.set = {ix.v})
ListLaw  == (ix.k = "list" /\ R.ok) => R.set = {ix.v[p] : p \in DOMAIN ix.v}
\* slicing with positive unit step is an interval, and complements partition the axis
SliceLaw == (ix.k = "slice" /\ ix.c \in {Nn, 1}) =>
    /\ \A i, j \in R.set : \A m \in 0..(n - 1) : (i <= m /\ m <= j) => m \in R.set
    /\ LET lo == K!SliceSet(Nn, ix.a, Nn, n) hi == K!SliceSet(ix.b, Nn, Nn, n)
       IN  (ix.a # Nn /\ ix.b # Nn /\ lo \cap hi = {}) => (lo \cup R.set \cup hi = 0..(n - 1))
\* a reversed slice selects the mirror image of the forward one
MirrorLaw == (ix.k = "slice" /\ ix.c = -1 /\ ix.a = Nn /\ ix.b = Nn) => R.set = 0..(n - 1)
SortLaw == LET q == K!SortedSeq(R.set, n)
           IN  /\ Len(q) = Cardinality(R.set)
               /\ \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Emit == PrintT("@GEN " \o ToJson([n |-> n, ix |-> ix]))
=============================================================================
