----------------------------- MODULE TextForms -----------------------------
(***************************************************************************)
(* What the text of each object must tell, in every state.  Three kernel   *)
(* matrices (k1, k2, k3, each with its own kernel function), a set s with  *)
(* a composite on it, a set u taken or built from others, a precomputed    *)
(* and a constant matrix.  A text is the set of the facts it mentions:     *)
(*   "fn:k"      the name of the kernel function of k                      *)
(*   "par:k"     all its parameter values                                  *)
(*   "name:x"    the name of object x                                      *)
(*   "normed:k"  the normalization flag of k                               *)
(*   "at:A"      name and shape of sample A                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS KMs, Samples, MaxLevel, Generate
None == "-"
VARIABLES on,      \* km -> <<>>, <<sample>> or <<sample, sample>>
          ms,      \* set -> sequence of its members; absent: <<"absent">>
          sized,   \* the sets that know their number of samples
          comp,    \* the set the composite is on, None if there is none
          hist
vars == <<on, ms, sized, comp, hist>>
Sets == {"s", "u"}
Step(e) == hist' = IF Generate THEN Append(hist, e) ELSE <<>>
Init == on = [k \in KMs |-> <<>>] /\ ms = [x \in Sets |-> <<"absent">>] /\ sized = {} /\ comp = None /\ hist = <<>>
There(x) == ms[x] # <<"absent">>
Range(q) == {q[i] : i \in DOMAIN q}

Attach(k, a) == on' = [on EXCEPT ![k] = <<a>>] /\ UNCHANGED <<ms, sized, comp>> /\ Step([op |-> "attach", k |-> k, a |-> a])
Attach2(k, a, b) == a # b /\ on' = [on EXCEPT ![k] = <<a, b>>] /\ UNCHANGED <<ms, sized, comp>>
                    /\ Step([op |-> "attach2", k |-> k, a |-> a, b |-> b])
\* reading a matrix, tagging it: the text does not depend on it
Use(k, how) == on[k] # <<>> /\ UNCHANGED <<on, ms, sized, comp>> /\ Step([op |-> "use", k |-> k, how |-> how])
\* a call that is refused: wrong sample, wrong member, wrong index; no text depends on it
Refuse(k, how) == UNCHANGED <<on, ms, sized, comp>> /\ Step([op |-> "refuse", k |-> k, how |-> how])
RefuseSet(x, how) == There(x) /\ (how = "attach" => x \in sized) /\ UNCHANGED <<on, ms, sized, comp>> /\ Step([op |-> "refuseset", s |-> x, how |-> how])
\* a set can only be formed of matrices on the same number of samples: here only of unattached ones, or one of them
Make(x, q) == ~There(x) /\ (\A i \in DOMAIN q : on[q[i]] = <<>>) /\ ms' = [ms EXCEPT ![x] = q] /\ UNCHANGED <<on, sized, comp>>
              /\ Step([op |-> "make", s |-> x, q |-> q])
\* the samples all differ in size, so only a set none of whose members is attached can be attached
SetAttach(x, a) == There(x) /\ ms[x] # <<>> /\ (\A k \in Range(ms[x]) : on[k] = <<>>)
                   /\ (\A y \in Sets \ {x} : Range(ms[y]) \cap Range(ms[x]) = {})
                   /\ on' = [k \in KMs |-> IF k \in Range(ms[x]) THEN <<a>> ELSE on[k]] /\ sized' = sized \cup {x}
                   /\ UNCHANGED <<ms, comp>>
                   /\ Step([op |-> "setattach", s |-> x, a |-> a])
Take(x, y, q) == There(x) /\ ~There(y) /\ q # <<>> /\ (\A i \in DOMAIN q : q[i] \in DOMAIN ms[x] /\ on[ms[x][q[i]]] = on[ms[x][q[1]]])
                 /\ sized' = (IF on[ms[x][q[1]]] = <<>> THEN sized ELSE sized \cup {y})
                 /\ ms' = [ms EXCEPT ![y] = [i \in DOMAIN q |-> ms[x][q[i]]]] /\ UNCHANGED <<on, comp>>
                 /\ Step([op |-> "take", s |-> x, t |-> y, q |-> q])
Compose(x, how) == There(x) /\ x \in sized /\ Len(ms[x]) >= 2 /\ comp = None /\ (\A k \in Range(ms[x]) : Len(on[k]) = 1 /\ on[k] = on[ms[x][1]])
                   /\ comp' = x /\ UNCHANGED <<on, ms, sized>> /\ Step([op |-> "compose", s |-> x, how |-> how])
Fit == comp # None /\ UNCHANGED <<on, ms, sized, comp>> /\ Step([op |-> "fit"])
Orders == UNION {[1..n -> KMs] : n \in 0..3}
RefuseHows == {"columns", "vector", "cube", "index"}
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Next == \/ \E k \in KMs, a \in Samples : Attach(k, a)
        \/ \E k \in KMs, a \in Samples, b \in Samples : Attach2(k, a, b)
        \/ \E k \in KMs, how \in {"full", "elem", "attr", "centered"} : Use(k, how)
        \/ \E k \in KMs, how \in RefuseHows : Refuse(k, how)
        \/ \E x \in Sets, how \in {"attach", "append", "index", "extend"} : RefuseSet(x, how)
        \/ \E x \in Sets, q \in Orders : Distinct(q) /\ Make(x, q)
        \/ \E x \in Sets, a \in Samples : SetAttach(x, a)
        \/ \E x \in Sets, y \in Sets, q \in {<<1>>, <<2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1>>} : Take(x, y, q)
        \/ \E x \in Sets, how \in {"sum", "product", "average", "weighted"} : Compose(x, how)
        \/ Fit
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < MaxLevel

\* ------------------------------------------------------------------ required and excluded facts
FnTells(k) == {"fn:" \o k, "par:" \o k}
KMTells(k) == {"name:" \o k} \cup FnTells(k)
              \cup (IF on[k] = <<>> THEN {} ELSE {"normed:" \o k} \cup {"at:" \o on[k][i] : i \in DOMAIN on[k]})
KMNotTells(k) == {"at:" \o a : a \in Samples \ Range(on[k])}
SetTells(x) == {"name:" \o x} \cup UNION {KMTells(k) : k \in Range(ms[x])}
SetNotTells(x) == {"at:" \o a : a \in Samples \ UNION {Range(on[k]) : k \in Range(ms[x])}}
                  \cup {"name:" \o k : k \in KMs \ Range(ms[x])}
Tells(o) == IF o.k = "fn" THEN FnTells(o.x) ELSE IF o.k = "km" THEN KMTells(o.x)
            ELSE IF o.k = "set" THEN (IF There(o.x) THEN SetTells(o.x) ELSE {})
            ELSE IF o.k = "comp" THEN (IF comp = None THEN {} ELSE {"name:comp"} \cup UNION {KMTells(k) : k \in Range(ms[comp])})
            ELSE {"name:" \o o.x}
NotTells(o) == IF o.k = "km" THEN KMNotTells(o.x) ELSE IF o.k = "set" /\ There(o.x) THEN SetNotTells(o.x) ELSE {}

\* ------------------------------------------------------------------ laws of the specification
TypeOK == /\ \A k \in KMs : on[k] \in {<<>>} \cup {<<a>> : a \in Samples} \cup {<<a, b>> : a, b \in Samples}
          /\ \A x \in Sets : There(x) => Range(ms[x]) \subseteq KMs
Consistent == /\ \A k \in KMs : KMTells(k) \cap KMNotTells(k) = {}
              /\ \A x \in Sets : There(x) => SetTells(x) \cap SetNotTells(x) = {}
              /\ \A x \in Sets : There(x) => \A k \in Range(ms[x]) : KMTells(k) \subseteq SetTells(x)
\* different attachments have different texts
Faithful == \A k \in KMs : on[k] # <<>> => \A a \in Samples : (("at:" \o a) \in KMTells(k)) = (a \in Range(on[k]))
Emit == Generate => PrintT("@GEN " \o ToJson(hist'))
View == <<on, ms, sized, comp>>
=============================================================================
