------------------------------ MODULE Memory ------------------------------
(***************************************************************************)
(* Who may write what: the frame condition of every operation of the       *)
(* library.  The caller holds objects: data (vectors, samples, labels,     *)
(* weights, matrices, lists of values), library objects (kernel matrices,  *)
(* sets, composites, estimators) and everything returned by earlier calls. *)
(* An operation reads its arguments, may change the state of library       *)
(* objects, and may return something new; the CONTENT of every data object *)
(* the caller holds stays what it was - whether the call succeeds or not.  *)
(* Writers is the (empty) set of operations that violate this; it exists   *)
(* to show that the frame property is not vacuous (MemoryLegacy.cfg).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Given,      \* types of the objects the caller starts with, e.g. GivenAll
          Names,      \* operations to explore ({} = all)
          MaxCalls, Generate, Writers

Data == {"vec", "cvec", "samp", "lab", "rlab", "wts", "swts", "plist", "idx", "mat", "dvec", "kml", "vals", "out"}
GivenAll == <<"vec", "vec", "cvec", "cvec", "samp", "samp", "lab", "rlab", "wts", "wts", "swts", "plist", "plist", "idx", "idx",
              "mat", "mat", "dvec", "dvec", "kml", "vals", "km", "km", "km", "set", "set", "pre", "con", "comp", "est", "rest", "est", "rest",
              "mat", "mat", "dvec", "out">>      \* the last four: results of calls made before
S(a, r) == [args |-> a, res |-> r]
Sig == [
  \* kernel functions
  k_linear |-> S(<<"vec", "vec">>, "none"), k_poly |-> S(<<"vec", "vec">>, "none"), k_gaussian |-> S(<<"vec", "vec">>, "none"),
  k_laplacian |-> S(<<"vec", "vec">>, "none"), k_chi2 |-> S(<<"vec", "vec">>, "none"), k_sigmoid |-> S(<<"vec", "vec">>, "none"),
  k_hadamard |-> S(<<"vec", "vec">>, "none"), k_callable |-> S(<<"vec", "vec">>, "none"), k_match |-> S(<<"cvec", "cvec">>, "none"),
  k_psd |-> S(<<>>, "none"),
  \* kernel matrices
  new |-> S(<<>>, "km"), newnormed |-> S(<<>>, "km"),
  attach |-> S(<<"km", "samp">>, "none"), attach2 |-> S(<<"km", "samp", "samp">>, "none"),
  full |-> S(<<"km">>, "mat"), normed |-> S(<<"km">>, "mat"), sparse |-> S(<<"km">>, "out"), diagonal |-> S(<<"km">>, "dvec"),
  centered |-> S(<<"km">>, "mat"), frob |-> S(<<"km">>, "none"), normalize |-> S(<<"km">>, "none"), center |-> S(<<"km">>, "none"),
  all |-> S(<<"km">>, "out"), rows |-> S(<<"km", "idx">>, "out"), cell |-> S(<<"km">>, "out"), arith |-> S(<<"km", "km">>, "none"),
  kattr |-> S(<<"km", "vals">>, "none"), text |-> S(<<"km">>, "none"),
  \* matrix operations
  normalize_km |-> S(<<"mat">>, "mat"), normalize2 |-> S(<<"mat", "dvec", "dvec">>, "mat"), center_km |-> S(<<"mat">>, "mat"),
  frobenius_product |-> S(<<"mat", "mat">>, "none"), frobenius_norm |-> S(<<"mat">>, "none"),
  alignment |-> S(<<"mat", "mat">>, "none"), similarity |-> S(<<"mat", "mat">>, "none"), psd |-> S(<<"mat">>, "none"),
  correlation |-> S(<<"mat", "mat">>, "none"), ideal |-> S(<<"lab">>, "mat"), scale |-> S(<<"dvec">>, "dvec"),
  \* given matrices
  pre |-> S(<<"mat">>, "pre"), pfull |-> S(<<"pre">>, "mat"), pdiag |-> S(<<"pre">>, "dvec"), prows |-> S(<<"pre", "idx">>, "out"),
  const |-> S(<<>>, "con"), cfull |-> S(<<"con">>, "mat"), cdiag |-> S(<<"con">>, "dvec"), crows |-> S(<<"con", "idx">>, "out"),
  \* sets
  mkset |-> S(<<"kml">>, "set"), append |-> S(<<"set", "km">>, "none"), appendmat |-> S(<<"set", "mat">>, "none"),
  setattach |-> S(<<"set", "samp">>, "none"), take |-> S(<<"set", "idx">>, "set"), funcs |-> S(<<"set", "idx">>, "none"),
  extend |-> S(<<"set", "set">>, "none"), setattr |-> S(<<"set", "vals">>, "none"), getattr |-> S(<<"set">>, "none"),
  \* composites
  sum |-> S(<<"set">>, "comp"), product |-> S(<<"set">>, "comp"), average |-> S(<<"set">>, "comp"),
  waverage |-> S(<<"set", "wts">>, "comp"), fit |-> S(<<"comp">>, "none"), fitw |-> S(<<"comp", "wts">>, "none"),
  composite |-> S(<<"comp">>, "mat"), compfull |-> S(<<"comp">>, "mat"),
  lincomb |-> S(<<"set", "wts">>, "mat"), lincombn |-> S(<<"set", "wts">>, "mat"),
  \* buckets, ranking, similarity
  bucket |-> S(<<"plist", "plist">>, "set"), light |-> S(<<>>, "set"), addparam |-> S(<<"set", "plist">>, "none"),
  rankalign |-> S(<<"set", "rlab">>, "out"), rankcv |-> S(<<"set", "lab">>, "out"), find |-> S(<<"set", "samp", "rlab">>, "none"),
  pairwise |-> S(<<"set">>, "mat"), pairwisealign |-> S(<<"set">>, "mat"),
  \* estimators
  machine |-> S(<<>>, "est"), regressor |-> S(<<>>, "rest"), optsvc |-> S(<<"set">>, "est"), optsvr |-> S(<<"set">>, "rest"),
  efit |-> S(<<"est", "samp", "lab">>, "none"), efitw |-> S(<<"est", "samp", "lab", "swts">>, "none"),
  rfit |-> S(<<"rest", "samp", "rlab">>, "none"), rfitw |-> S(<<"rest", "samp", "rlab", "swts">>, "none"),
  predict |-> S(<<"est", "samp">>, "out"), rpredict |-> S(<<"rest", "samp">>, "out"),
  params |-> S(<<"est">>, "none"), rclone |-> S(<<"rest">>, "rest"), eclone |-> S(<<"est">>, "est")]
Ops == IF Names = {} THEN DOMAIN Sig ELSE Names

VARIABLES types, ver, todo, calls, hist
vars == <<types, ver, todo, calls, hist>>
Init == types = Given /\ ver = [i \in DOMAIN Given |-> 0] /\ todo = "" /\ calls = 0 /\ hist = <<>>
Holders(t) == {h \in DOMAIN types : types[h] = t}
Possible(o) == \A i \in DOMAIN Sig[o].args : Holders(Sig[o].args[i]) # {}
\* choosing the operation first makes random walks visit all operations alike
Choose == todo = "" /\ calls < MaxCalls /\ \E o \in Ops : Possible(o) /\ todo' = o /\ UNCHANGED <<types, ver, calls, hist>>
Effect(o, a, h) == IF o \in Writers /\ a # <<>> /\ h = a[1] /\ types[h] \in Data THEN ver[h] + 1 ELSE ver[h]
Call(o, a) ==
    LET r == Sig[o].res
    IN  /\ types' = IF r = "none" THEN types ELSE Append(types, r)
        /\ ver' = [h \in DOMAIN types' |-> IF h \in DOMAIN ver THEN Effect(o, a, h) ELSE 0]
        /\ calls' = calls + 1 /\ todo' = ""
        /\ hist' = IF Generate THEN Append(hist, [op |-> o, args |-> a, res |-> r]) ELSE <<>>
ArgSeqs(sg) == LET n == Len(sg) IN
    CASE n = 0 -> {<<>>}
      [] n = 1 -> {<<a>> : a \in Holders(sg[1])}
      [] n = 2 -> {<<a, b>> : a \in Holders(sg[1]), b \in Holders(sg[2])}
      [] n = 3 -> {<<a, b, d>> : a \in Holders(sg[1]), b \in Holders(sg[2]), d \in Holders(sg[3])}
      [] n = 4 -> {<<a, b, d, e>> : a \in Holders(sg[1]), b \in Holders(sg[2]), d \in Holders(sg[3]), e \in Holders(sg[4])}
Do == todo # "" /\ \E a \in ArgSeqs(Sig[todo].args) : Call(todo, a)
Next == Choose \/ Do
Spec == Init /\ [][Next]_vars

TypeOK == /\ Len(types) = Len(ver) /\ calls \in 0..MaxCalls
          /\ \A h \in DOMAIN Given : types[h] = Given[h]
\* the property: nothing the caller holds changes its content, whatever is called
Frame == [][\A h \in DOMAIN ver : types[h] \in Data => ver'[h] = ver[h]]_vars
Untouched == \A h \in DOMAIN ver : types[h] \in Data => ver[h] = 0
Emit == (Generate /\ todo # "") => PrintT("@GEN " \o ToJson(hist'))
=============================================================================
