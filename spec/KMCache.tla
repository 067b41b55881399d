------------------------------- MODULE KMCache -------------------------------
(***************************************************************************)
(* How kernelmethods.KernelMatrix answers its caller: a memo of evaluated  *)
(* pairs, one fully populated matrix, cached normalized / centered /       *)
(* Frobenius results, and the flags telling which of them are valid.       *)
(* Matrix contents are symbolic: an entry is the pair it was computed for, *)
(* tagged with the attachment, or Nan / Zero for entries never filled.     *)
(*                                                                         *)
(* Checked: every answer is the one KernelMatrix.tla prescribes (Correct), *)
(* evaluations are lazy and never repeated (Frugal), and the memo is       *)
(* always consistent with the attachment (MemoSound).                      *)
(*                                                                         *)
(* Legacy lists defects found in the pinned commit, each of which can be   *)
(* switched on again; TLC then reports a violation of Correct:             *)
(*   "sparse"  - full_sparse leaves a half-filled sparse _full_km behind   *)
(*   "recover" - a failure in the lower triangle leaves _populated_fully   *)
(*   "attach"  - attach_to assigns before it validates                     *)
(*   "noreset" - (not historical) the memo survives a re-attachment        *)
(*                                                                         *)
(* With Generate = TRUE every transition is printed with the history that  *)
(* leads to it: these are replayed against the real code.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keep, Legacy, Generate, MaxAttach, WithFaults, WithAttrs, MaxHist

Samples == {"A", "B", "C"}
NR(s) == CASE s = "A" -> 2 [] s = "B" -> 1 [] s = "C" -> 2
ZS(s) == FALSE
Singles == Samples
Doubles == {<<"A", "B">>, <<"B", "A">>, <<"A", "C">>}

K == INSTANCE KernelMatrix WITH NRows <- NR, ZeroSelf <- ZS, Keep <- Keep

VARIABLES
    st,       \* abstract state (KernelMatrix.tla)
    one, two, \* the attachment, as the object holds it
    memo,     \* function: evaluated cells -> value
    full,     \* content of _full_km, or NoMat
    sparse,   \* TRUE: _full_km is a sparse matrix
    pop, low, normed, cent,   \* the flags
    normc, centc, frobc,      \* cached results
    attrs,    \* user attributes
    nself,    \* self-similarities evaluated in the current call (two samples)
    res,      \* last call and its answer
    natt, hist

impl == <<one, two, memo, full, sparse, pop, low, normed, cent, normc, centc, frobc, attrs>>
vars == <<st, impl, nself, res, natt, hist>>
view == <<st, impl, natt>>

Nan == <<"nan">>
Zero == <<"zero">>
NoMat == <<"nomat">>
NoRes == [op |-> "none", out |-> "ok", val |-> NoMat, ev |-> {}]

isTwo == two # ""
R == NR(one)
C == IF isTwo THEN NR(two) ELSE NR(one)
Cells == {<<i, j>> : i \in 0..(R - 1), j \in 0..(C - 1)}
Key == IF isTwo THEN one \o "|" \o two ELSE one
Val(i, j) == IF ~isTwo /\ i > j THEN <<Key, j, i>> ELSE <<Key, i, j>>
Canon(i, j) == IF ~isTwo /\ i > j THEN <<j, i>> ELSE <<i, j>>

\* ------------------------------------------------------------------------
\* Evaluating a sequence of cells one after another; stops at the armed fault.
\* Returns the new memo, the evaluated cells, and whether a fault struck.
RECURSIVE EvalSeq(_, _, _)
EvalSeq(q, m, ev) ==
    IF q = <<>> THEN [memo |-> m, ev |-> ev, ok |-> TRUE]
    ELSE LET c == Canon(q[1][1], q[1][2])
         IN  IF c \in DOMAIN m THEN EvalSeq(Tail(q), m, ev)
             ELSE IF st.flt = <<"c", c[1], c[2]>> THEN [memo |-> m, ev |-> ev, ok |-> FALSE]
             ELSE EvalSeq(Tail(q), [x \in DOMAIN m \cup {c} |-> IF x = c THEN Val(c[1], c[2]) ELSE m[x]],
                          ev \cup {<<"c", c[1], c[2]>>})

RECURSIVE Flatten(_)
Flatten(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flatten(Tail(qq))
UpperSeq == Flatten([i \in 1..R |-> [j \in 1..(IF C >= i THEN C - i + 1 ELSE 0) |-> <<i - 1, i - 1 + j - 1>>]])
LowerSeq == Flatten([i \in 1..R |-> [j \in 1..K!MinI(i - 1, C) |-> <<i - 1, j - 1>>]])
IsUpper(c) == c[1] <= c[2]
UpperOnly(m) == [c \in Cells |-> IF IsUpper(c) THEN m[Canon(c[1], c[2])] ELSE Nan]

\* _populate_fully(dense_fmt, fill_lower_tri): the outcome as a record
Populate(dense, fill) ==
    LET up == EvalSeq(UpperSeq, memo, {})
        fresh == ~pop
        m1 == IF fresh THEN up.memo ELSE memo
        ev1 == IF fresh THEN up.ev ELSE {}
        blank == IF dense THEN Nan ELSE Zero
        full1 == IF fresh /\ up.ok
                 THEN [c \in Cells |-> IF IsUpper(c) THEN m1[Canon(c[1], c[2])] ELSE blank]
                 ELSE full
        sp1 == IF fresh THEN ~dense ELSE sparse
        lo == EvalSeq(LowerSeq, m1, ev1)
        doLow == fill /\ ~low
        full2 == IF doLow THEN [c \in Cells |-> IF IsUpper(c) THEN full1[c] ELSE lo.memo[Canon(c[1], c[2])]]
                 ELSE full1
        sp2 == IF dense THEN FALSE ELSE sp1
    IN  IF fresh /\ ~up.ok
        THEN [ok |-> FALSE, memo |-> up.memo, ev |-> up.ev, full |-> full, sparse |-> sparse,
              pop |-> FALSE, low |-> low]
        ELSE IF doLow /\ isTwo /\ ~lo.ok
        THEN [ok |-> FALSE, memo |-> lo.memo, ev |-> lo.ev, full |-> full1, sparse |-> sp1,
              pop |-> ("recover" \in Legacy), low |-> FALSE]
        ELSE IF doLow
        THEN [ok |-> TRUE, memo |-> IF isTwo THEN lo.memo ELSE m1, ev |-> IF isTwo THEN lo.ev ELSE ev1,
              full |-> full2, sparse |-> sp2, pop |-> TRUE, low |-> TRUE]
        ELSE [ok |-> TRUE, memo |-> m1, ev |-> ev1, full |-> full1, sparse |-> sp2, pop |-> TRUE, low |-> low]

\* the accessors call _populate_fully only when the flag is off
Populated == IF pop THEN [ok |-> TRUE, memo |-> memo, ev |-> {}, full |-> full, sparse |-> sparse,
                          pop |-> TRUE, low |-> low]
             ELSE Populate(TRUE, TRUE)

SelfEval == IF isTwo THEN K!SelfCells(st) ELSE {}
SelfFault == st.flt # K!NoFault /\ st.flt \in SelfEval

Answer(e, out, val, ev) == [op |-> e.op, out |-> out, val |-> val, ev |-> ev]
Struck(e, ev) == st' = K!After(st, e, ev, TRUE)
Fine(e, ev) == st' = K!After(st, e, ev, FALSE)

SetImpl(p) == /\ memo' = p.memo /\ full' = p.full /\ sparse' = p.sparse
              /\ pop' = p.pop /\ low' = p.low

\* normalize(): on a populated matrix, unless already normalized
NormalizeOn(p, e, val(_)) ==
    IF ~p.ok
    THEN /\ SetImpl(p) /\ Struck(e, p.ev) /\ res' = Answer(e, "err", NoMat, p.ev)
         /\ UNCHANGED <<one, two, normed, cent, normc, centc, frobc, attrs>>
    ELSE IF normed
    THEN /\ SetImpl(p) /\ Fine(e, p.ev) /\ res' = Answer(e, "ok", val(normc), p.ev)
         /\ UNCHANGED <<one, two, normed, cent, normc, centc, frobc, attrs>>
    ELSE IF SelfFault
    THEN \E S \in SUBSET (SelfEval \ {st.flt}) :          \* any part of the self-similarities came first
         /\ SetImpl(p) /\ Struck(e, p.ev \cup S) /\ res' = Answer(e, "err", NoMat, p.ev \cup S)
         /\ UNCHANGED <<one, two, normed, cent, normc, centc, frobc, attrs>>
    ELSE LET n == <<"normed", p.full>>
         IN  /\ SetImpl(p) /\ Fine(e, p.ev \cup SelfEval)
             /\ normed' = TRUE /\ normc' = n
             /\ res' = Answer(e, "ok", val(n), p.ev \cup SelfEval)
             /\ UNCHANGED <<one, two, cent, centc, frobc, attrs>>

Nothing(x) == NoMat
Same(x) == x

\* ------------------------------------------------------------------------
DoFull(e) ==
    IF Keep THEN NormalizeOn(Populated, e, Same)
    ELSE LET p == Populated
         IN  /\ SetImpl(p)
             /\ IF p.ok THEN Fine(e, p.ev) /\ res' = Answer(e, "ok", <<"raw", p.full>>, p.ev)
                ELSE Struck(e, p.ev) /\ res' = Answer(e, "err", NoMat, p.ev)
             /\ UNCHANGED <<one, two, normed, cent, normc, centc, frobc, attrs>>

DoSparse(e) ==
    IF Keep THEN NormalizeOn(Populated, e, Same)
    ELSE LET p == IF "sparse" \in Legacy THEN Populate(FALSE, FALSE) ELSE Populate(TRUE, TRUE)
             upper == [c \in Cells |-> IF IsUpper(c) THEN p.full[c] ELSE Zero]
         IN  /\ SetImpl(p)
             /\ IF p.ok
                THEN Fine(e, p.ev) /\ res' = Answer(e, "ok", <<"upper", upper>>, p.ev)
                ELSE Struck(e, p.ev) /\ res' = Answer(e, "err", NoMat, p.ev)
             /\ UNCHANGED <<one, two, normed, cent, normc, centc, frobc, attrs>>

DoNormalize(e) == NormalizeOn(Populated, e, Nothing)
DoNormed(e) == IF normed
               THEN /\ Fine(e, {}) /\ res' = Answer(e, "ok", normc, {})
                    /\ UNCHANGED impl
               ELSE NormalizeOn(Populated, e, Same)

Refuse(e) == /\ st' = K!After(st, e, {}, TRUE) /\ res' = Answer(e, "err", NoMat, {}) /\ UNCHANGED impl

DoCenter(e) ==
    IF isTwo THEN Refuse(e)
    ELSE IF e.op = "centered" /\ cent
    THEN Fine(e, {}) /\ res' = Answer(e, "ok", centc, {}) /\ UNCHANGED impl
    ELSE LET p == Populated
             c == <<"centered", p.full>>
         IN  /\ SetImpl(p)
             /\ IF p.ok
                THEN /\ Fine(e, p.ev) /\ cent' = TRUE /\ centc' = c
                     /\ res' = Answer(e, "ok", IF e.op = "centered" THEN c ELSE NoMat, p.ev)
                ELSE /\ Struck(e, p.ev) /\ UNCHANGED <<cent, centc>>
                     /\ res' = Answer(e, "err", NoMat, p.ev)
             /\ UNCHANGED <<one, two, normed, normc, frobc, attrs>>

DoFrob(e) ==
    LET p == Populated
        f == IF frobc # NoMat THEN frobc ELSE <<"frob", p.full>>
    IN  /\ SetImpl(p)
        /\ IF p.ok
           THEN /\ Fine(e, p.ev) /\ frobc' = f /\ res' = Answer(e, "ok", f, p.ev)
           ELSE /\ Struck(e, p.ev) /\ UNCHANGED frobc /\ res' = Answer(e, "err", NoMat, p.ev)
        /\ UNCHANGED <<one, two, normed, cent, normc, centc, attrs>>

EvalBlock(e, q) ==
    LET r == EvalSeq(q, memo, {})
    IN  /\ memo' = r.memo
        /\ IF r.ok
           THEN /\ Fine(e, r.ev)
                /\ res' = Answer(e, "ok", <<"block", q, [k \in 1..Len(q) |-> r.memo[Canon(q[k][1], q[k][2])]]>>, r.ev)
           ELSE /\ Struck(e, r.ev) /\ res' = Answer(e, "err", NoMat, r.ev)
        /\ UNCHANGED <<one, two, full, sparse, pop, low, normed, cent, normc, centc, frobc, attrs>>

DoDiag(e) == IF isTwo THEN Refuse(e) ELSE EvalBlock(e, [i \in 1..R |-> <<i - 1, i - 1>>])

DoGet(e) ==
    LET r == K!Resolve(e.ix, R)  c == K!Resolve(e.iy, C)
    IN  IF ~r.ok \/ ~c.ok THEN Refuse(e)
        ELSE IF Cardinality(r.set) = R /\ Cardinality(c.set) = C
        THEN LET p == Populate(TRUE, TRUE)
             IN  /\ SetImpl(p)
                 /\ IF p.ok THEN Fine(e, p.ev) /\ res' = Answer(e, "ok", <<"raw", p.full>>, p.ev)
                    ELSE Struck(e, p.ev) /\ res' = Answer(e, "err", NoMat, p.ev)
                 /\ UNCHANGED <<one, two, normed, cent, normc, centc, frobc, attrs>>
        ELSE LET rs == K!SortedSeq(r.set, R)  cs == K!SortedSeq(c.set, C)
             IN  EvalBlock(e, Flatten([a \in 1..Len(rs) |-> [b \in 1..Len(cs) |-> <<rs[a], cs[b]>>]]))

Reset == /\ memo' = IF "noreset" \in Legacy THEN memo ELSE <<>>
         /\ full' = NoMat /\ sparse' = FALSE /\ pop' = FALSE /\ low' = FALSE
         /\ normed' = FALSE /\ cent' = FALSE /\ normc' = NoMat /\ frobc' = NoMat
         /\ UNCHANGED centc            \* _centered is not deleted, only its flag is cleared
         /\ attrs' = <<>>

DoAttach(e) == /\ one' = e.s /\ two' = (IF e.op = "attach2" THEN e.t ELSE "")
               /\ Reset /\ Fine(e, {}) /\ res' = Answer(e, "ok", NoMat, {})

\* different numbers of columns: rejected
DoAttachBad(e) ==
    IF "attach" \in Legacy
    THEN /\ one' = "C" /\ res' = Answer(e, "err", NoMat, {}) /\ UNCHANGED st
         /\ UNCHANGED <<two, memo, full, sparse, pop, low, normed, cent, normc, centc, frobc, attrs>>
    ELSE /\ UNCHANGED <<impl, st>> /\ res' = Answer(e, "err", NoMat, {})

DoAttr(e) ==
    CASE e.op = "setattr" -> /\ attrs' = K!PutAttr(attrs, e.n, e.v) /\ Fine(e, {})
                             /\ res' = Answer(e, "ok", NoMat, {})
                             /\ UNCHANGED <<one, two, memo, full, sparse, pop, low, normed, cent, normc, centc, frobc>>
      [] e.op = "getattr" -> /\ Fine(e, {}) /\ UNCHANGED impl
                             /\ res' = Answer(e, "ok", <<"attr", K!LookupAttr(attrs, e.n, e.dflt)>>, {})

DoArm(e) == Fine(e, {}) /\ UNCHANGED impl /\ res' = Answer(e, "ok", NoMat, {})

\* ------------------------------------------------------------------------
I(v) == [k |-> "int", v |-> v]
AllIx == [k |-> "slice", a |-> 99999, b |-> 99999, c |-> 99999]
Indices(n) == {I(v) : v \in 0..n} \cup {AllIx}      \* v = n is out of range
Gets == {[op |-> "get", ix |-> a, iy |-> b] : a \in Indices(R), b \in Indices(C)}
Wholes == {[op |-> o] : o \in K!WholeOps \cup {"diag"}}
Attaches == {[op |-> "attach1", s |-> s] : s \in Singles}
            \cup {[op |-> "attach2", s |-> d[1], t |-> d[2]] : d \in Doubles}
Attrs == IF WithAttrs THEN {[op |-> "setattr", n |-> "tag", v |-> "v1"], [op |-> "setattr", n |-> "id", v |-> "v2"],
                            [op |-> "getattr", n |-> "tag", dflt |-> "nil"]}
         ELSE {}
Arms == IF WithFaults /\ st.flt = K!NoFault
        THEN {[op |-> "arm", cell |-> c] : c \in (K!AllCells(st) \cup K!SelfCells(st)) \ (st.ev \cup st.self)} ELSE {}

Init == /\ st = K!Fresh /\ one = "" /\ two = "" /\ memo = <<>> /\ full = NoMat /\ sparse = FALSE
        /\ pop = FALSE /\ low = FALSE /\ normed = FALSE /\ cent = FALSE
        /\ normc = NoMat /\ centc = NoMat /\ frobc = NoMat /\ attrs = <<>>
        /\ nself = {} /\ res = NoRes /\ natt = 0 /\ hist = <<>>

Step(e) == hist' = Append(hist, e) /\ nself' = {}

Next ==
    /\ Len(hist) < MaxHist
    /\ \/ \E e \in Attaches : natt < MaxAttach /\ natt' = natt + 1 /\ st.flt = K!NoFault /\ Step(e) /\ DoAttach(e)
       \/ /\ one # "" /\ UNCHANGED natt
          /\ \/ LET e == [op |-> "attachbad"] IN Step(e) /\ DoAttachBad(e)
             \/ \E e \in Gets : Step(e) /\ DoGet(e)
             \/ \E e \in Wholes :
                   /\ Step(e)
                   /\ CASE e.op = "full" -> DoFull(e)
                        [] e.op = "sparse" -> DoSparse(e)
                        [] e.op = "normalize" -> DoNormalize(e)
                        [] e.op = "normed" -> DoNormed(e)
                        [] e.op \in {"center", "centered"} -> DoCenter(e)
                        [] e.op = "frob" -> DoFrob(e)
                        [] e.op = "diag" -> DoDiag(e)
             \/ \E e \in Attrs : Step(e) /\ DoAttr(e)
             \/ \E e \in Arms : Step(e) /\ DoArm(e)

Spec == Init /\ [][Next]_vars

\* printing of every transition, for replay against the code
Emit == IF Generate THEN PrintT("@GEN " \o ToJson(hist')) ELSE TRUE

\* ------------------------------------------------------------------------
Expected(k) == [c \in Cells |-> Val(c[1], c[2])]
ExpUpper == [c \in Cells |-> IF IsUpper(c) THEN Val(c[1], c[2]) ELSE Zero]
Attachment == one = st.one /\ two = st.two /\ attrs = st.attrs
Answered ==
    /\ (res.op \in K!WholeOps /\ res.out = "ok") =>
          CASE K!ViewOf(res.op)[1] = "none"  -> TRUE
            [] K!ViewOf(res.op)[1] = "upper" -> isTwo \/ res.val = <<"upper", ExpUpper>>
            [] OTHER -> res.val = <<K!ViewOf(res.op)[1], Expected(Key)>>
    /\ (res.op = "get" /\ res.out = "ok") =>
          IF res.val[1] = "raw" THEN res.val = <<"raw", Expected(Key)>>
          ELSE \A k \in DOMAIN res.val[2] : res.val[3][k] = Val(res.val[2][k][1], res.val[2][k][2])
    /\ (res.op = "diag" /\ res.out = "ok") => res.val[3] = [i \in 1..R |-> Val(i - 1, i - 1)]
    /\ (res.op = "getattr") => res.val = <<"attr", K!LookupAttr(st.attrs, "tag", "nil")>>
\* every answer, on every transition, is the one the attachment prescribes
Correct == [][Answered']_vars

\* the memo only ever holds values of the current attachment, canonically ordered
MemoSound == one # "" => \A c \in DOMAIN memo : memo[c] = Val(c[1], c[2]) /\ Canon(c[1], c[2]) = c
\* the abstract record of evaluated cells is the memo
Frugal == one # "" => st.ev = {<<"c", c[1], c[2]>> : c \in DOMAIN memo}
\* a populated matrix is complete and dense
PopComplete == (one # "" /\ pop) => ~sparse /\ low /\ full = Expected(Key)

\* no pair is evaluated twice, and only what the call needs (action property)
LazyOnce == [][ \/ one' # one \/ two' # two \/ natt' # natt
                \/ (res'.ev \cap (st.ev \cup st.self) = {}) ]_vars
\* an access is refused or struck exactly when the abstract specification says so
ErrorsJustified ==
    [][ (hist' # hist /\ one # "") =>
          LET e == hist'[Len(hist')]
          IN  (res'.out = "err") <=> (K!Refused(st, e) \/ K!Struck(st, e)) ]_vars
\* a refused call changes nothing at all
RefusalIsSilent ==
    [][ (hist' # hist /\ one # "" /\ K!Refused(st, hist'[Len(hist')])) =>
          UNCHANGED impl /\ res'.ev = {} ]_vars
=============================================================================
