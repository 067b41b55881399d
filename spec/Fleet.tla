------------------------------- MODULE Fleet -------------------------------
(***************************************************************************)
(* Several KernelMatrix objects at once: objects sharing their kernel      *)
(* function, samples and names, copies of each other (copy.deepcopy,       *)
(* pickle), and members of KernelSets that are copied as a whole.          *)
(* The state of every object is that of KernelMatrix.tla; the point of the *)
(* module is that an object's state depends on the calls made on it alone  *)
(* (for a copy: those made on its origin before the copy was taken).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,       \* "solo": objects 1..3; "group": members of two sets, {1,2} and {3,4}
          MaxLevel, Generate, Leaky    \* Leaky: a wrong design, for the self-test (attributes shared with copies)
VARIABLES st, ev, hist
vars == <<st, ev, hist>>

NR(s) == 2
ZS(s) == FALSE
K == INSTANCE KernelMatrix WITH NRows <- NR, ZeroSelf <- ZS, Keep <- TRUE

H == IF Mode = "solo" THEN 1..3 ELSE 1..4
Dead == [live |-> FALSE, k |-> K!Fresh]
Born == [live |-> TRUE, k |-> K!Fresh]
Grp(h) == IF h <= 2 THEN {1, 2} ELSE {3, 4}
Twin(h) == IF h <= 2 THEN h + 2 ELSE h - 2

Init == /\ st = [h \in H |-> IF h <= (IF Mode = "solo" THEN 1 ELSE 2) THEN Born ELSE Dead]
        /\ ev = [op |-> "start", h |-> 1] /\ hist = <<>>
Step(e) == ev' = e /\ hist' = IF Generate THEN Append(hist, e) ELSE <<>>

OpsOn == {[op |-> o] : o \in {"full", "normed", "centered", "frob", "diag", "normalize"}}
         \cup {[op |-> "get", ix |-> [k |-> "int", v |-> 0], iy |-> [k |-> "int", v |-> 1]]}
         \cup {[op |-> "setattr", n |-> "p", v |-> v] : v \in {"x", "y"}}
         \cup (IF Mode = "solo" THEN {[op |-> "attach1", s |-> s] : s \in {"A", "B"}} \cup {[op |-> "attach2", s |-> "A", t |-> "B"], [op |-> "attach2", s |-> "B", t |-> "A"]} ELSE {})
Specd(k, e) == e.op \in {"setattr", "attach1", "attach2"} \/ (K!Attached(k) /\ ~K!Refused(k, e))
Next1(k, e) == K!After(k, e, IF K!Attached(k) THEN K!Need(k, e) ELSE {}, FALSE)

Call(h, e) == /\ st[h].live /\ Specd(st[h].k, e)
              /\ st' = [g \in H |-> IF g = h THEN [st[g] EXCEPT !.k = Next1(st[h].k, e)]
                                    ELSE IF Leaky /\ e.op = "setattr" THEN [st[g] EXCEPT !.k.attrs = K!PutAttr(st[g].k.attrs, e.n, e.v)]
                                    ELSE st[g]]
              /\ Step([op |-> "call", h |-> h, e |-> e])
New(h) == /\ Mode = "solo" /\ ~st[h].live
          /\ st' = [st EXCEPT ![h] = Born] /\ Step([op |-> "new", h |-> h])
Copy(h, g, how) == /\ Mode = "solo" /\ st[h].live /\ g # h
                   /\ st' = [st EXCEPT ![g] = st[h]]
                   /\ Step([op |-> "copy", h |-> h, g |-> g, how |-> how])
\* the whole set at once; its members keep their order
AttachSet(h, s) == /\ Mode = "group" /\ st[h].live
                   /\ st' = [g \in H |-> IF g \in Grp(h) THEN [st[g] EXCEPT !.k = Next1(st[g].k, [op |-> "attach1", s |-> s])] ELSE st[g]]
                   /\ Step([op |-> "attachset", h |-> h, s |-> s])
CopySet(h, how) == /\ Mode = "group" /\ st[h].live
                   /\ st' = [g \in H |-> IF g \in Grp(h) THEN st[g] ELSE st[Twin(g)]]
                   /\ Step([op |-> "copyset", h |-> h, how |-> how])

Next == \E h \in H :
          \/ \E e \in OpsOn : Call(h, e)
          \/ New(h)
          \/ \E g \in H, how \in {"deepcopy", "pickle"} : Copy(h, g, how)
          \/ h \in {1, 3} /\ \E s \in {"A", "B"} : AttachSet(h, s)
          \/ h \in {1, 3} /\ \E how \in {"deepcopy", "pickle"} : CopySet(h, how)
Spec == Init /\ [][Next]_vars
View == st
Bound == TLCGet("level") < MaxLevel

\* ------------------------------------------------------------ properties --
Touched(e) == CASE e.op \in {"call", "new"} -> {e.h}
                [] e.op = "copy" -> {e.g}
                [] e.op = "attachset" -> Grp(e.h)
                [] e.op = "copyset" -> {Twin(g) : g \in Grp(e.h)}
                [] OTHER -> {}
Independent == [][\A h \in H : st'[h] # st[h] => h \in Touched(ev')]_vars
Faithful == [][/\ ev'.op = "copy" => st'[ev'.g] = st[ev'.h]
               /\ ev'.op = "copyset" => \A g \in Grp(ev'.h) : st'[Twin(g)] = st[g]]_vars
NewIsFresh == [][ev'.op = "new" => st'[ev'.h].k = K!Fresh]_vars
Emit == Generate => PrintT("@GEN " \o ToJson(hist'))
=============================================================================
