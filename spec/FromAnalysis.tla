---------------------------- MODULE FromAnalysis ----------------------------
(* POD studies built from one linear analysis.  The analysis is a fact (data,   *)
(* thresholds, law, Box-Cox choice, fitted line); a study made from it only      *)
(* adds its own detection threshold.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Extras, Detections, MaxLen
Accepted(extras, det) == extras = {} /\ det
VARIABLES analysis, pods, hist
vars == <<analysis, pods, hist>>
Fact == [line |-> "line of the analysis", box |-> "parameter of the analysis", law |-> "law of the analysis"]
Init == analysis = Fact /\ pods = <<>> /\ hist = <<>>
Room == Len(hist) < MaxLen
Did(k, i, d) == hist' = Append(hist, [k |-> k, i |-> i, d |-> d])
Build(d) == /\ Room /\ Len(pods) < 3
            /\ pods' = Append(pods, [det |-> d, from |-> analysis, ran |-> FALSE])
            /\ Did("build", Len(pods) + 1, d) /\ UNCHANGED analysis
Run(i) == /\ Room /\ pods' = [pods EXCEPT ![i].ran = TRUE]
          /\ Did("run", i, pods[i].det) /\ UNCHANGED analysis
Read == /\ Room /\ Len(hist) > 0 /\ hist[Len(hist)].k # "read" /\ Did("read", 0, 0) /\ UNCHANGED <<analysis, pods>>
Emit == /\ Len(hist) = MaxLen /\ \E i \in 1..Len(pods) : pods[i].ran
        /\ PrintT("CASE " \o ToJson([kind |-> "history", h |-> hist])) /\ FALSE /\ UNCHANGED vars
EmitCtor == /\ hist = <<>>
            /\ \E e \in SUBSET Extras : \E d \in BOOLEAN :
                 PrintT("CASE " \o ToJson([kind |-> "ctor", extras |-> e, det |-> d])) /\ FALSE
            /\ UNCHANGED vars
Next == Emit \/ EmitCtor \/ Read \/ (\E d \in Detections : Build(d)) \/ (\E i \in 1..Len(pods) : Run(i))
Spec == Init /\ [][Next]_vars
SameLine == \A i \in 1..Len(pods) : pods[i].from = analysis
AnalysisStays == [][UNCHANGED analysis]_vars
ThresholdStays == [][\A i \in 1..Len(pods) : pods'[i].det = pods[i].det]_vars
=============================================================================
