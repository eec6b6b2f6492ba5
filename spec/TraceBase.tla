----------------------------- MODULE TraceBase -----------------------------
(* Total verdict over a recorded trace of independent events: every event is    *)
(* consumed, and each event that breaks clauses is printed with their names.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
CONSTANT Broken(_)          \* event -> set of names of the clauses it breaks
VARIABLE at_
Judge(e) == IF e.op = "crash" THEN {"unexpected_failure"} ELSE Broken(e)
Init == at_ = 1
Next == /\ at_ <= Len(Trace)
        /\ LET b == Judge(Trace[at_])
           IN IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_at_
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
