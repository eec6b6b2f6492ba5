------------------------------ MODULE Summary ------------------------------
(* A summary of studies: which methods are active, and for each method the run  *)
(* (1, 2, ..) its result comes from, 0 when the last run did not make one.       *)
(* Kriging needs several inputs.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Methods, Multi, Starts, MaxLen
AppliesTo(m, several) == m # "Kriging" \/ several
Applies(m) == AppliesTo(m, Multi)
VARIABLES on, res, runs, hist, first
vars == <<on, res, runs, hist, first>>
Init == /\ on \in Starts /\ first = on /\ res = [m \in Methods |-> 0] /\ runs = 0 /\ hist = <<>>
Did(k, m) == hist' = Append(hist, [k |-> k, m |-> m])
Room == Len(hist) < MaxLen
Toggle(m) == /\ Room /\ on' = IF m \in on THEN on \ {m} ELSE on \cup {m}
             /\ Did("toggle", m) /\ UNCHANGED <<res, runs, first>>
Run == /\ Room /\ runs' = runs + 1
       /\ res' = [m \in Methods |-> IF m \in on /\ Applies(m) THEN runs + 1 ELSE 0]
       /\ Did("run", "") /\ UNCHANGED <<on, first>>
(* what can be asked *)
WantedIn(o, several) == {m \in o : AppliesTo(m, several)}
RefusedIn(o, r, n, several) == n = 0 \/ \E m \in WantedIn(o, several) : r[m] = 0
RowsIn(o, r, n, several) == IF RefusedIn(o, r, n, several) THEN {} ELSE WantedIn(o, several)
Wanted == WantedIn(on, Multi)
Answer(m) == IF m \notin Wanted \/ res[m] = 0 THEN 0 ELSE res[m]
Refused == RefusedIn(on, res, runs, Multi)
Rows == RowsIn(on, res, runs, Multi)
Show(k) == /\ Room /\ (IF Len(hist) = 0 THEN TRUE ELSE hist[Len(hist)].k # k) /\ Did(k, "") /\ UNCHANGED <<on, res, runs, first>>
Emit == /\ Len(hist) = MaxLen /\ runs > 0
        /\ PrintT("CASE " \o ToJson([on |-> first, h |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == Run \/ Emit \/ (\E m \in Methods : Toggle(m)) \/ \E k \in {"table", "save", "draw"} : Show(k)
Spec == Init /\ [][Next]_vars

LastRunOnly == \A m \in Methods : res[m] \in {0, runs}
NothingForInactive == \A m \in Methods \ on : Answer(m) = 0 /\ m \notin Rows
RowsHaveResults == \A m \in Rows : Answer(m) = runs /\ runs > 0
OneRowPerActive == ~Refused => Rows = Wanted
ActivateDoesNotRun == [][on' # on => res' = res]_vars
AskingChangesNothing == [][hist' # hist /\ hist'[Len(hist')].k \in {"table", "save", "draw"} => UNCHANGED <<on, res, runs>>]_vars
=============================================================================
