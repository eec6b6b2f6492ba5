------------------------------- MODULE PliPod -------------------------------
(* Perturbation study of a POD over defect sizes numbered along the axis.  Dull   *)
(* holds the <<size, law>> at which detection is (almost) certain or impossible:   *)
(* a run leaves their part of the table undefined and has no object for them.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Chosen, Laws, Dull, MaxLen
VARIABLES sizes, law, res, hist
vars == <<sizes, law, res, hist>>
None == [kept |-> {}, ran |-> FALSE]
(* class of an estimated probability: -1 at most 0.001, 1 at least 0.999, 0 between *)
Informative(class) == class = 0
Init == sizes = Sizes /\ law = 1 /\ res = None /\ hist = <<>>
Room == Len(hist) < MaxLen
Did(k, s) == hist' = Append(hist, [k |-> k, s |-> s])
Choose(s) == /\ Room /\ sizes' = s /\ res' = None /\ Did("sizes", s) /\ UNCHANGED law
Law(l) == /\ Room /\ l # law /\ law' = l /\ Did("law", {l}) /\ UNCHANGED <<sizes, res>>
Run == /\ Room /\ res' = [kept |-> {t \in sizes : <<t, law>> \notin Dull}, ran |-> TRUE] /\ Did("run", {}) /\ UNCHANGED <<sizes, law>>
Other(k) == /\ Room /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].k # k) /\ Did(k, {}) /\ UNCHANGED <<sizes, law, res>>
Others == {"ask", "sampling", "bad_sizes", "bad_law"}
Emit == /\ Len(hist) = MaxLen /\ \E i \in 1..Len(hist) : hist[i].k = "run"
        /\ PrintT("CASE " \o ToJson([h |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == Run \/ Emit \/ (\E s \in Chosen : Choose(s)) \/ (\E l \in Laws : Law(l)) \/ (\E k \in Others : Other(k))
Spec == Init /\ [][Next]_vars
KeptIsCurrent == res.kept \subseteq sizes
NeedsRun == (res.ran => \E i \in 1..Len(hist) : hist[i].k = "run") /\ (~res.ran => res.kept = {})
ForgottenBySizes == [][(hist' # hist /\ hist'[Len(hist')].k = "sizes") => res' = None]_vars
OtherSettersKeep == [][(hist' # hist /\ hist'[Len(hist')].k \notin {"sizes", "run"}) => UNCHANGED <<res, sizes>>]_vars
NothingDull == [][(hist' # hist /\ hist'[Len(hist')].k = "run") => \A t \in sizes' : (t \in res'.kept) = (<<t, law>> \notin Dull)]_vars
=============================================================================
