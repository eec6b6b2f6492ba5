-------------------------- MODULE FromAnalysisTrace --------------------------
(* Recorded studies built from an analysis.  e.an: everything the analysis       *)
(* answers, at every step.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES at_, base, pods
vars == <<at_, base, pods>>
F == INSTANCE FromAnalysis WITH Extras <- {}, Detections <- {}, MaxLen <- 0, analysis <- [line |-> 0, box |-> 0, law |-> 0], hist <- <<>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Set(s) == {s[i] : i \in 1..Len(s)}
Init == at_ = 1 /\ base = <<>> /\ pods = <<>>
Judge(e) ==
  CASE e.op = "crash" -> {"unexpected_failure"}
    [] e.op = "ctor" -> Clause(IF F!Accepted(Set(e.extras), e.det) THEN "threshold_alone_accepted" ELSE "anything_else_refused", e.ok = F!Accepted(Set(e.extras), e.det))
    [] e.op = "start" -> {}
    [] OTHER ->
       Clause("analysis_unchanged", SeqSame(e.an, base, 1))
       \cup (IF e.op = "build" THEN Clause("study_built", e.ok) \cup Clause("box_cox_of_the_analysis", Same(e.lam, e.wlam, 10))
             ELSE IF e.op = "run" THEN
                  Clause("study_runs", e.ok)
                  \cup Clause("threshold_of_the_study", e.d = pods[e.p])
                  \cup Clause("same_curve_as_from_the_data", SeqSame(e.curve, e.dcurve, 2000))
                  \cup Clause("same_confidence_curves_as_from_the_data", SeqSame(e.cl, e.dcl, 2000))
                  \cup Clause("same_detection_sizes_as_from_the_data", SeqSame(e.sizes, e.dsizes, 200000))
                  \cup Clause("box_cox_of_the_analysis", Same(e.lam, e.wlam, 10))
                  \cup Clause("r2_of_the_analysis", Close(e.r2, e.wr2, 2000))
                  \cup Clause("line_of_the_analysis", SeqClose(e.curve, e.lcurve, 5000))
             ELSE {})
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ base' = IF e.op = "start" THEN e.an ELSE base
              /\ pods' = IF e.op = "start" THEN <<>> ELSE IF e.op = "build" THEN Append(pods, e.d) ELSE pods
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
