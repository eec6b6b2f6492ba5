------------------------------- MODULE Caller -------------------------------
(* What the caller owns and what a study keeps of it.                           *)
(*   mine[a]  version of the caller's own object a (0, 1, .. NVer)               *)
(*   has[a]   version of a the study works with, -1 when it was never given      *)
(*   res      the versions its answers come from, <<>> before the first run      *)
(* Only the caller changes mine, only handing a over changes has[a], only a run   *)
(* changes res; the form of the data (list, array, ...) plays no role.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Args, AtBuild, Forms, NVer, MaxLen, MaxRuns
VARIABLES form, mine, has, res, hist
vars == <<form, mine, has, res, hist>>
Steps(k) == Cardinality({i \in 1..Len(hist) : hist[i].k = k})
Did(k, a) == Append(hist, [k |-> k, a |-> a])
Init == /\ form \in Forms /\ mine = [a \in Args |-> 0] /\ has = [a \in Args |-> -1]
        /\ res = <<>> /\ hist = <<>>
Built == Steps("build") = 1
Room == Len(hist) < MaxLen
Build == /\ Room /\ ~Built /\ has' = [a \in Args |-> IF a \in AtBuild THEN mine[a] ELSE -1]
         /\ hist' = Did("build", "") /\ UNCHANGED <<form, mine, res>>
Give(a) == /\ Room /\ Built /\ a \notin AtBuild /\ has[a] # mine[a] /\ has' = [has EXCEPT ![a] = mine[a]]
           /\ hist' = Did("give", a) /\ UNCHANGED <<form, mine, res>>
Change(a) == /\ Room /\ mine[a] < NVer /\ mine' = [mine EXCEPT ![a] = @ + 1]
             /\ hist' = Did("change", a) /\ UNCHANGED <<form, has, res>>
Run == /\ Room /\ Built /\ Steps("run") < MaxRuns /\ res' = has
       /\ hist' = Did("run", "") /\ UNCHANGED <<form, mine, has>>
Ask == /\ Room /\ res # <<>> /\ hist[Len(hist)].k # "ask" /\ hist' = Did("ask", "") /\ UNCHANGED <<form, mine, has, res>>
Emit == /\ Len(hist) = MaxLen /\ res # <<>>
        /\ PrintT("CASE " \o ToJson([form |-> form, h |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == Build \/ Run \/ Ask \/ Emit \/ \E a \in Args : Give(a) \/ Change(a)
Spec == Init /\ [][Next]_vars

Count(a, n) == Cardinality({i \in 1..n : hist[i].k = "change" /\ hist[i].a = a})
Hands(h, a) == (h.k = "give" /\ h.a = a) \/ (h.k = "build" /\ a \in AtBuild)
Handed(a) == {i \in 1..Len(hist) : Hands(hist[i], a)}
Max(S) == CHOOSE i \in S : \A j \in S : j <= i
ChangedByCallerOnly == \A a \in Args : mine[a] = Count(a, Len(hist))
KeptAsGiven == \A a \in Args : has[a] = IF Handed(a) = {} THEN -1 ELSE Count(a, Max(Handed(a)))
Runs == {i \in 1..Len(hist) : hist[i].k = "run"}
AnswersAreOfLastRun == IF Runs = {} THEN res = <<>>
  ELSE \A a \in Args : LET S == {i \in Handed(a) : i < Max(Runs)}
                       IN res[a] = IF S = {} THEN -1 ELSE Count(a, Max(S))
ChangingMyDataChangesNothing == [][mine' # mine => UNCHANGED <<has, res>>]_vars
UsingTheStudyLeavesMyData == [][(has' # has) => UNCHANGED mine]_vars
=============================================================================
