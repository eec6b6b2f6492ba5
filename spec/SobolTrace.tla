----------------------------- MODULE SobolTrace -----------------------------
(* Recorded sensitivity studies.  e.sizes: the reported sizes (numbers of the    *)
(* palette, 0 when not one of them), e.flat / e.moving: sizes at which the POD    *)
(* certainly does not / does vary under the current law.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES at_, sizes, method, law, res
vars == <<at_, sizes, method, law, res>>
S == INSTANCE Sobol WITH Sizes <- {}, Methods <- {}, Laws <- {}, Flat <- {}, MaxLen <- 0, hist <- <<>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Set(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Init == at_ = 1 /\ sizes = {} /\ method = "Saltelli" /\ law = 1 /\ res = [sizes |-> {}, method |-> "", law |-> 0]
May(e) == S!KeptIn(sizes, Set(e.flat))
Must(e) == sizes \cap Set(e.moving)
(* sizes that neither certainly vary nor certainly do not may be kept or not *)
Kept(e) == IF e.ok THEN (May(e) \cap Set(e.sizes)) \cup Must(e) ELSE Must(e)
Sizes(e) == CASE e.op = "start" -> Set(e.sizes)
              [] e.op = "sizes" -> Set(e.s)
              [] e.op = "run" -> IF Kept(e) = {} THEN sizes ELSE Kept(e)
              [] OTHER -> sizes
Res(e) == CASE e.op = "start" -> [sizes |-> {}, method |-> "", law |-> 0]
            [] e.op = "run" -> IF Kept(e) = {} THEN res ELSE [sizes |-> Kept(e), method |-> method, law |-> law]
            [] OTHER -> res
Reported(e) == Clause("reported_sizes", Set(e.sizes) = Sizes(e) /\ Sorted(e.sizes))
Answered(e, r) ==
  IF r.sizes = {} THEN Clause("refused_before_run", e.n = 0)
  (* -1: OpenTURNS refuses a variance made of rounding noise *)
  ELSE Clause("one_result_per_size", e.n \in {-1, Cardinality(r.sizes)})
       \cup Clause("selected_estimator", e.class = r.method)
Judge(e) ==
  CASE e.op = "crash" -> {"unexpected_failure"}
    [] e.op = "refused" -> Clause("refused_" \o e.what, ~e.ok)
    (* numbers against references *)
    [] e.op = "index" -> Clause(e.what \o "_" \o e.kind, Len(e.got) = Len(e.ref) /\ \A i \in 1..Len(e.got) : Close(e.got[i], e.ref[i], e.tol[i]))
    [] e.op = "drawn" -> Clause("drawn_sizes", SeqClose(e.x, e.wx, 1000)) \cup Clause("drawn_indices", SeqClose(e.y, e.wy, 1000)) \cup Clause("drawn_labels", e.labels) \cup Clause("drawn_method", e.title)
    [] e.op = "start" -> Reported(e) \cup Answered(e, Res(e))
    [] e.op = "run" -> Clause("run_accepted_when_the_pod_varies", IF e.ok THEN May(e) # {} ELSE Must(e) = {}) \cup Reported(e) \cup Answered(e, Res(e))
    [] e.op \in {"bad_sizes", "bad_method", "bad_law"} -> Clause("invalid_refused", ~e.ok) \cup Reported(e) \cup Answered(e, res) \cup Clause("method_kept", e.method = method)
    [] OTHER -> Clause("step_accepted", e.ok) \cup Reported(e) \cup Answered(e, res)
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ IF e.op \in {"crash", "refused", "index", "drawn"} THEN UNCHANGED <<sizes, method, law, res>>
                 ELSE /\ sizes' = Sizes(e) /\ res' = Res(e)
                      /\ method' = IF e.op = "start" THEN "Saltelli" ELSE IF e.op = "method" THEN e.v ELSE method
                      /\ law' = IF e.op = "start" THEN 1 ELSE IF e.op = "law" THEN e.s[1] ELSE law
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
