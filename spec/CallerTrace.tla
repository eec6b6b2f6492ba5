----------------------------- MODULE CallerTrace -----------------------------
(* Recorded use of real studies against Caller.                                 *)
(*   e.mine[a]  version found in the caller's own object after the step (-2: none)*)
(*   e.read[a]  version read back from the study, -1 when there is no accessor    *)
(*   e.ans      fingerprint of everything that can be asked (0 before a run)      *)
(* fresh.ndjson: fingerprints of the answers of studies built from pristine lists *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
Fresh == ndJsonDeserialize("fresh.ndjson")
New == [k \in {<<Fresh[i].cls, Fresh[i].has>> : i \in 1..Len(Fresh)} |->
          (LET i == CHOOSE j \in 1..Len(Fresh) : Fresh[j].cls = k[1] /\ Fresh[j].has = k[2] IN Fresh[i].fp)]
VARIABLES at_, mine, has, ans, broken
vars == <<at_, mine, has, ans, broken>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Init == at_ = 1 /\ mine = <<>> /\ has = <<>> /\ ans = 0 /\ broken = {}
Mine(e) == CASE e.op = "start" -> [a \in DOMAIN e.mine |-> 0]
             [] e.op = "change" -> [mine EXCEPT ![e.a] = @ + 1]
             [] OTHER -> mine
Has(e) == CASE e.op = "start" -> [a \in DOMAIN e.mine |-> -1]
            [] e.op = "build" -> [a \in DOMAIN mine |-> IF a \in {e.given[i] : i \in 1..Len(e.given)} THEN mine[a] ELSE -1]
            [] e.op = "give" -> [has EXCEPT ![e.a] = mine[e.a]]
            [] OTHER -> has
Reads(e, h) == \A a \in DOMAIN h : (h[a] = -1 \/ e.read[a] = -1) \/ e.read[a] = h[a]
Judge(e) ==
  IF e.op = "crash" THEN {"unexpected_failure"}
  ELSE IF e.op = "shape" THEN Clause("inconsistent_data_" \o e.what \o "_" \o e.cls, e.refused)
  ELSE Clause("step_succeeds", e.ok)
       \cup Clause("caller_data_untouched", e.mine = Mine(e))
       \cup (IF e.op = "start" THEN {} ELSE Clause("study_keeps_what_it_was_given", Reads(e, Has(e))))
       \cup (CASE e.op = "run" -> Clause("answers_of_the_data_given", ~e.ok \/ e.ans = New[<<e.cls, Has(e)>>])
               [] e.op \in {"start", "build", "give"} -> {}     \* giving: see StudyTrace
               [] OTHER -> Clause("answers_kept", e.ans = ans))
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ IF e.op \in {"crash", "shape"} THEN UNCHANGED <<mine, has, ans>>
                 ELSE mine' = Mine(e) /\ has' = Has(e) /\ ans' = e.ans
              /\ broken' = b
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
