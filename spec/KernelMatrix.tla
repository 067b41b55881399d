---------------------------- MODULE KernelMatrix ----------------------------
(***************************************************************************)
(* What a user of kernelmethods.KernelMatrix may rely on: one KernelMatrix *)
(* object, its attachment, its user attributes, and which pairs of points  *)
(* have been evaluated so far.  No caches here: every answer is a function *)
(* of the current attachment alone.  KMCache.tla models how the code gets  *)
(* there (memo, flags, cached views) and is checked against this module;   *)
(* KMTrace.tla checks recorded executions of the real code against it.     *)
(*                                                                         *)
(* Calls are records (field "op" and arguments), so that the same          *)
(* operators serve TLC exploration and the validation of JSON traces.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    NRows(_),      \* NRows(s): number of rows of sample s
    ZeroSelf(_),   \* TRUE iff some row of s has k(x,x) (close to) 0: cosine normalization is undefined
    Keep           \* the normalized=... argument of the constructor

None == 99999      \* "no value" inside slices
NoFault == <<"none", 0, 0>>
Unattached == ""

Range(f) == {f[x] : x \in DOMAIN f}
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* ascending sequence of the elements of S, a subset of 0..n-1
RECURSIVE SortFrom(_, _, _)
SortFrom(S, i, n) == IF i >= n THEN <<>>
                     ELSE IF i \in S THEN <<i>> \o SortFrom(S, i + 1, n)
                     ELSE SortFrom(S, i + 1, n)
SortedSeq(S, n) == SortFrom(S, 0, n)

-----------------------------------------------------------------------------
(* Python index objects on an axis of length n.                              *)

\* slice(a, b, c).indices(n), then range(...): the set of selected positions
SliceSet(a, b, c, n) ==
    LET step == IF c = None THEN 1 ELSE c
        clampP(v) == IF v < 0 THEN MaxI(v + n, 0) ELSE MinI(v, n)
        clampN(v) == IF v < 0 THEN MaxI(v + n, -1) ELSE MinI(v, n - 1)
        start == IF step > 0 THEN (IF a = None THEN 0 ELSE clampP(a))
                             ELSE (IF a = None THEN n - 1 ELSE clampN(a))
        stop  == IF step > 0 THEN (IF b = None THEN n ELSE clampP(b))
                             ELSE (IF b = None THEN -1 ELSE clampN(b))
    IN  IF step = 0 THEN {}                      \* Python rejects a zero step
        ELSE {i \in 0..(n - 1) :
            IF step > 0 THEN i >= start /\ i < stop /\ (i - start) % step = 0
                        ELSE i <= start /\ i > stop /\ (start - i) % (-step) = 0}

Selects(S, ok) == [ok |-> ok, set |-> S]
Resolve(ix, n) ==
    CASE ix.k = "int"   -> Selects({ix.v} \cap 0..(n - 1), ix.v >= 0 /\ ix.v < n)
      [] ix.k = "slice" -> LET S == SliceSet(ix.a, ix.b, ix.c, n) IN Selects(S, S # {} /\ ix.c # 0)
      [] ix.k = "list"  -> Selects(Range(ix.v) \cap 0..(n - 1),
                                   ix.v # <<>> /\ \A v \in Range(ix.v) : v >= 0 /\ v < n)
      [] OTHER          -> Selects({}, FALSE)       \* floats, booleans, None, strings, ...

\* out-of-range and empty selections must be reported as KMAccessError
IsPlain(ix) == ix.k \in {"int", "list"} \/ (ix.k = "slice" /\ ix.c # 0)

-----------------------------------------------------------------------------
(* State of one KernelMatrix.                                                *)

Fresh == [one |-> Unattached, two |-> Unattached,
          ev  |-> {},        \* cells evaluated since the last attach
          self |-> {},       \* self-similarities evaluated for two-sample normalization
          seen |-> {},       \* whole-matrix results computed since the last attach: raw, normed
          attrs |-> <<>>,    \* sequence of <<name, value>>, at most one per name
          flt |-> NoFault]   \* armed fault: the next kernel call for this cell raises

Attached(st) == st.one # Unattached
Two(st)      == st.two # Unattached
Rows(st)     == NRows(st.one)
Cols(st)     == IF Two(st) THEN NRows(st.two) ELSE NRows(st.one)

Canon(st, i, j) == IF Two(st) \/ i <= j THEN <<"c", i, j>> ELSE <<"c", j, i>>
CellsOf(st, I, J) == {Canon(st, i, j) : i \in I, j \in J}
AllCells(st) == CellsOf(st, 0..(Rows(st) - 1), 0..(Cols(st) - 1))
DiagCells(st) == {<<"c", i, i>> : i \in 0..(Rows(st) - 1)}
SelfCells(st) == IF Two(st) THEN {<<"x", i, i>> : i \in 0..(Rows(st) - 1)}
                                 \cup {<<"y", j, j>> : j \in 0..(Cols(st) - 1)}
                 ELSE {}

Undefined(st) == ZeroSelf(st.one) \/ (Two(st) /\ ZeroSelf(st.two))

WholeOps == {"full", "sparse", "normalize", "normed", "center", "centered", "frob"}
NormOps == {"normalize", "normed"} \cup (IF Keep THEN {"full", "sparse"} ELSE {})
SingleOnly == {"center", "centered", "diag"}

\* What a successful whole-matrix access must show: <<name of view, format>>
ViewOf(op) ==
    CASE op = "full"     -> IF Keep THEN <<"normed", "dense">> ELSE <<"raw", "dense">>
      [] op = "sparse"   -> IF Keep THEN <<"normed", "any">> ELSE <<"upper", "sparse">>
      [] op = "normed"   -> <<"normed", "dense">>
      [] op = "centered" -> <<"centered", "dense">>
      [] op = "frob"     -> <<"frob", "scalar">>
      [] OTHER           -> <<"none", "none">>           \* normalize(), center() return nothing

\* is the index pair of a get the whole matrix?
WholeGet(st, e) == e.op = "get" /\ LET r == Resolve(e.ix, Rows(st)) c == Resolve(e.iy, Cols(st))
                                   IN  /\ r.ok /\ c.ok
                                       /\ Cardinality(r.set) = Rows(st) /\ Cardinality(c.set) = Cols(st)

\* The cells an access may evaluate (beyond those already evaluated)
Need(st, e) ==
    CASE e.op = "get"    -> LET r == Resolve(e.ix, Rows(st)) c == Resolve(e.iy, Cols(st))
                            IN  IF r.ok /\ c.ok THEN CellsOf(st, r.set, c.set) ELSE {}
      [] e.op = "getlin" -> IF e.p >= 0 /\ e.p < Rows(st) * Cols(st)
                            THEN {Canon(st, e.p \div Cols(st), e.p % Cols(st))} ELSE {}
      [] e.op = "diag"   -> IF Two(st) THEN {} ELSE DiagCells(st)
      [] e.op \in WholeOps -> IF Two(st) /\ e.op \in SingleOnly THEN {}
                              ELSE AllCells(st) \cup (IF e.op \in NormOps THEN SelfCells(st) ELSE {})
      [] OTHER -> {}

\* The call must be refused, for reasons visible to the caller (not a fault)
Refused(st, e) ==
    CASE e.op = "get"    -> ~Resolve(e.ix, Rows(st)).ok \/ ~Resolve(e.iy, Cols(st)).ok
      [] e.op = "getlin" -> ~(e.p >= 0 /\ e.p < Rows(st) * Cols(st))
      [] e.op = "getbad" -> TRUE                          \* wrong number of dimensions, strings, ...
      [] e.op \in {"center", "centered", "diag"} -> Two(st)
      [] e.op = "attachbad" -> TRUE
      [] OTHER -> FALSE

\* The call is refused because cosine normalization is undefined on the data
NormRefused(st, e) == e.op \in NormOps /\ ~Refused(st, e) /\ Undefined(st)

\* The armed fault strikes during this call
Struck(st, e) == st.flt # NoFault /\ st.flt \in Need(st, e) \ (st.ev \cup st.self)

\* Names of the required exception classes ("any": some exception)
RequiredError(st, e) ==
    CASE e.op = "get" /\ IsPlain(e.ix) /\ IsPlain(e.iy) -> {"KMAccessError"}
      [] OTHER -> {"any"}

\* expected block of a get / diag / getlin as positions <<i, j>>
Block(r, c) == [a \in 1..Len(r) |-> [b \in 1..Len(c) |-> <<r[a], c[b]>>]]

LookupAttr(at, name, default) ==
    IF \E k \in DOMAIN at : at[k][1] = name
    THEN at[CHOOSE k \in DOMAIN at : at[k][1] = name][2] ELSE default
PutAttr(at, name, value) ==
    IF \E k \in DOMAIN at : at[k][1] = name
    THEN [k \in DOMAIN at |-> IF at[k][1] = name THEN <<name, value>> ELSE at[k]]
    ELSE Append(at, <<name, value>>)

\* whole-matrix results a call computes (or may have computed, if it failed)
Computes(st, e) ==
    IF Refused(st, e) THEN {}
    ELSE IF e.op \in WholeOps
    THEN {"raw"} \cup (IF e.op \in NormOps THEN {"normed"} ELSE {})
    ELSE IF WholeGet(st, e) THEN {"raw"} ELSE {}

\* Successor after a call, where newEv is what was evaluated during it (successfully)
\* and failed says that the call raised.
After(st, e, newEv, failed) ==
    CASE e.op = "attach1" -> [Fresh EXCEPT !.one = e.s, !.flt = st.flt]
      [] e.op = "attach2" -> [Fresh EXCEPT !.one = e.s, !.two = e.t, !.flt = st.flt]
      [] e.op = "setattr" -> [st EXCEPT !.attrs = PutAttr(st.attrs, e.n, e.v)]
      [] e.op = "arm"     -> [st EXCEPT !.flt = e.cell]
      [] OTHER ->
           [st EXCEPT !.ev = @ \cup {c \in newEv : c[1] = "c"},
                      \* a failed normalization may have to evaluate self-similarities again
                      !.self = IF failed /\ e.op \in NormOps THEN {} ELSE @ \cup {c \in newEv : c[1] \in {"x", "y"}},
                      !.seen = @ \cup Computes(st, e),
                      !.flt = IF Struck(st, e) THEN NoFault ELSE @]
=============================================================================
