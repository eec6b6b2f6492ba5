------------------------------- MODULE Sobol -------------------------------
(* A sensitivity study of a POD.  Sizes are numbered along the defect axis.     *)
(* Flat holds the <<size, law>> at which the POD does not depend on the other    *)
(* inputs: no index exists there, and a run drops them from the reported sizes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Methods, Laws, Flat, MaxLen
VARIABLES sizes, method, law, res, hist
vars == <<sizes, method, law, res, hist>>
None == [sizes |-> {}, method |-> "", law |-> 0]
Init == sizes = Sizes /\ method = "Saltelli" /\ law = 1 /\ res = None /\ hist = <<>>
KeptIn(s, flat) == s \ flat
Room == Len(hist) < MaxLen
Did(k, s, v) == hist' = Append(hist, [k |-> k, s |-> s, v |-> v])
Choose(s) == /\ Room /\ s # sizes /\ sizes' = s /\ Did("sizes", s, "") /\ UNCHANGED <<method, law, res>>
Method(m) == /\ Room /\ m # method /\ method' = m /\ Did("method", {}, m) /\ UNCHANGED <<sizes, law, res>>
Law(l) == /\ Room /\ l # law /\ law' = l /\ Did("law", {l}, "") /\ UNCHANGED <<sizes, method, res>>
Run == /\ Room
       /\ LET kept == KeptIn(sizes, {t \in Sizes : <<t, law>> \in Flat})
          IN IF kept = {} THEN UNCHANGED <<sizes, res>>           \* refused: nothing varies
             ELSE sizes' = kept /\ res' = [sizes |-> kept, method |-> method, law |-> law]
       /\ Did("run", {}, "") /\ UNCHANGED <<method, law>>
Ask == /\ Room /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].k # "ask") /\ Did("ask", {}, "") /\ UNCHANGED <<sizes, method, law, res>>
Bad(k) == /\ Room /\ Did(k, {}, "") /\ UNCHANGED <<sizes, method, law, res>>
Emit == /\ Len(hist) = MaxLen /\ \E i \in 1..Len(hist) : hist[i].k = "run"
        /\ PrintT("CASE " \o ToJson([h |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == Run \/ Ask \/ Emit \/ (\E s \in SUBSET Sizes \ {{}} : Choose(s)) \/ (\E m \in Methods : Method(m)) \/ (\E l \in Laws : Law(l))
        \/ (\E k \in {"bad_sizes", "bad_method", "bad_law"} : Bad(k))
Spec == Init /\ [][Next]_vars
Ran == Len(hist) > 0 /\ hist[Len(hist)].k = "run"
NothingFlat == \A t \in res.sizes : <<t, res.law>> \notin Flat
SizesKept == sizes # {}
OneResultPerSize == [][(hist' # hist /\ hist'[Len(hist')].k = "run" /\ res' # res) => res'.sizes = sizes' /\ sizes' \subseteq sizes]_vars
NoResultWithoutRun == (\A i \in 1..Len(hist) : hist[i].k # "run") => res = None
SettersKeepResult == [][(hist' # hist /\ hist'[Len(hist')].k # "run") => UNCHANGED res]_vars
=============================================================================
