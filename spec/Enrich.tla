------------------------------- MODULE Enrich -------------------------------
(* Adaptive design of experiments.  Points are numbers: 1..N0 are given, new    *)
(* ones get the next numbers; the model returns for point p the value p.        *)
(*   pts, sig   design of the study: points and their signals                   *)
(*   cand       points that were evaluated but not yet taken (a batch)          *)
(*   spent      evaluations of the model in the current run                     *)
(*   fault      the evaluation of the current run that fails, 0: none           *)
(* A signal study evaluates the points one by one (Batch = 1); a hit/miss study *)
(* evaluates up to Batch points at once and takes as many as are still wanted.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N0, More, Batch, MaxRuns, Changes
VARIABLES pc, pts, sig, cand, spent, fault, base, used, hist
vars == <<pc, pts, sig, cand, spent, fault, base, used, hist>>
Min(a, b) == IF a < b THEN a ELSE b
Runs == Cardinality({i \in 1..Len(hist) : hist[i].k = "run"})
Wanted == base + More - Len(pts)
Init == /\ pc = "idle" /\ pts = [i \in 1..N0 |-> i] /\ sig = pts /\ cand = <<>> /\ spent = 0 /\ fault = 0
        /\ base = N0 /\ used = N0 /\ hist = <<>>
Start(f) == /\ pc = "idle" /\ Runs < MaxRuns /\ pc' = "search" /\ fault' = f /\ spent' = 0 /\ base' = Len(pts)
            /\ hist' = Append(hist, [k |-> "run", v |-> f]) /\ UNCHANGED <<pts, sig, cand, used>>
Pick(b) == /\ pc = "search" /\ Wanted > 0
           /\ cand' = [i \in 1..b |-> used + i] /\ used' = used + b /\ pc' = "evaluate"
           /\ UNCHANGED <<pts, sig, spent, fault, base, hist>>
Evaluate == /\ pc = "evaluate"
            /\ LET n == Len(cand) IN
               IF fault # 0 /\ spent < fault /\ fault <= spent + n
               THEN /\ spent' = fault /\ pc' = "idle" /\ cand' = <<>> /\ UNCHANGED <<pts, sig>>
               ELSE LET t == Min(n, Wanted) IN
                    /\ spent' = spent + n /\ pc' = "search" /\ cand' = <<>>
                    /\ pts' = pts \o SubSeq(cand, 1, t) /\ sig' = sig \o SubSeq(cand, 1, t)
            /\ UNCHANGED <<fault, base, used, hist>>
Finish == /\ pc = "search" /\ Wanted = 0 /\ pc' = "idle" /\ fault' = 0
          /\ UNCHANGED <<pts, sig, cand, spent, base, used, hist>>
Change(c) == /\ pc = "idle" /\ Runs < MaxRuns /\ Runs > 0 /\ hist[Len(hist)].k = "run"
             /\ hist' = Append(hist, [k |-> c, v |-> 0])
             /\ UNCHANGED <<pc, pts, sig, cand, spent, fault, base, used>>
Emit == /\ pc = "idle" /\ Runs = MaxRuns /\ PrintT("CASE " \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars
Next == \/ \E f \in 0..(More + Batch - 1) : Start(f)
        \/ \E b \in 1..Batch : Pick(b)
        \/ Evaluate \/ Finish \/ Emit \/ \E c \in Changes : Change(c)
Spec == Init /\ [][Next]_vars

AsManySignals == Len(pts) = Len(sig)
Distinct == \A i, j \in 1..Len(pts) : i # j => pts[i] # pts[j]
SignalsOfTheModel == \A i \in 1..Len(pts) : sig[i] = pts[i]
NeverTooMany == Len(pts) <= base + More
GivenPointsFirst == \A i \in 1..N0 : pts[i] = i
OneByOne == Batch = 1 => /\ (pc = "search" => Len(pts) = base + spent)
                         /\ (pc = "idle" /\ fault # 0 => Len(pts) = base + spent - 1)
EarlierPointsStay == [][Len(pts') >= Len(pts) /\ SubSeq(pts', 1, Len(pts)) = pts /\ SubSeq(sig', 1, Len(sig)) = sig]_vars
OnlyEvaluationAdds == [][pts' # pts => pc = "evaluate"]_vars
RunAddsAll == [][pc = "search" /\ pc' = "idle" => Len(pts) = base + More]_vars
=============================================================================
