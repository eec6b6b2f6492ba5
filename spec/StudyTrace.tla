----------------------------- MODULE StudyTrace -----------------------------
(* The recorded life of real objects against Study: the same transitions drive  *)
(* cfg and res, and every observation made after each step is judged.           *)
(*   e.read[o][p]  index of the value read back (0: none of the listed ones)     *)
(*   e.ans[o]      fingerprint of everything that can be asked from o            *)
(*   e.held        curves handed out earlier still have the values they had      *)
(* fresh.ndjson: fingerprint of the answers of a new object per parameters and   *)
(* random state                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Focus
Trace == ndJsonDeserialize("trace.ndjson")
Fresh == ndJsonDeserialize("fresh.ndjson")
New == [k \in {<<Fresh[i].cfg, Fresh[i].seed>> : i \in 1..Len(Fresh)} |->
          (LET i == CHOOSE j \in 1..Len(Fresh) : Fresh[j].cfg = k[1] /\ Fresh[j].seed = k[2] IN Fresh[i].fp)]
VARIABLES at_, cfg, res, ans, told, broken
vars == <<at_, cfg, res, ans, told, broken>>
Clause(name, ok) == IF ok \/ name \notin Focus THEN {} ELSE {name}
Init == at_ = 1 /\ cfg = <<>> /\ res = <<>> /\ ans = <<>> /\ told = <<>> /\ broken = {}
Reads(e, c) == \A o \in 1..Len(c) : \A p \in DOMAIN c[o] : e.read[o][p] = c[o][p]
Others(e) == \A o \in 1..Len(ans) : o # e.o => e.ans[o] = ans[o]
Judge(e, c, r) ==
  CASE e.op = "crash" -> {"unexpected_failure"}
    [] e.op = "new" -> Clause("born_with_defaults", Reads(e, c))
    [] e.op = "set" ->
         Clause("accepted", e.ok)
         \cup Clause("stored", e.ok => Reads(e, c))
         \cup Clause("answers_of_last_run", e.ans = ans)
    [] e.op = "bad" ->
         Clause("refused", ~e.ok)
         \cup Clause("refused_changes_no_parameter", Reads(e, c))
         \cup Clause("refused_changes_no_answer", e.ans = ans)
    [] e.op = "query" ->
         Clause("asking_changes_nothing", e.ans = ans)
         \cup Clause("parameters_kept", Reads(e, c))
         \cup Clause("stable_answer", e.again)
    [] e.op = "run" ->
         Clause("run_succeeds", e.ok)
         \cup Clause("like_a_new_object", ~e.ok \/ e.ans[e.o] = New[<<c[e.o], e.v>>])
         \cup Clause("runs_keep_parameters", ~e.ok \/ Reads(e, c))
         \cup Clause("other_objects_untouched", Others(e))
    [] OTHER -> {"unknown_event"}
Cfg(e) == CASE e.op = "new" -> [o \in 1..e.n |-> [p \in DOMAIN e.read[1] |-> 0]]
            [] e.op = "set" -> [cfg EXCEPT ![e.o][e.p] = e.v]
            [] OTHER -> cfg
Res(e) == CASE e.op = "new" -> [o \in 1..e.n |-> [ran |-> FALSE, cfg |-> <<>>, seed |-> 0]]
            [] e.op = "run" -> [res EXCEPT ![e.o] = [ran |-> TRUE, cfg |-> cfg[e.o], seed |-> e.v]]
            [] OTHER -> res
(* told[o]: the answers given to questions since the last run, as <<question, answer>> *)
Told(e) == CASE e.op = "new" -> [o \in 1..e.n |-> {}]
             [] e.op = "run" -> [told EXCEPT ![e.o] = {<<q, e.told[q]>> : q \in 1..Len(e.told)}]
             [] e.op = "query" -> [told EXCEPT ![e.o] = @ \cup {<<e.v, e.q>>}]
             [] OTHER -> told
Again(e) == IF e.op # "query" THEN {}
            ELSE Clause("same_answer_until_next_run", \A a \in told[e.o] : a[1] = e.v => a[2] = e.q)
Held(e) == IF e.op \in {"crash", "new"} THEN {} ELSE Clause("returned_curve_keeps_its_values", e.held)
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               c == Cfg(e)
               b == Judge(e, c, res) \cup Held(e) \cup Again(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ told' = Told(e) /\ cfg' = c /\ res' = Res(e)
              /\ ans' = IF e.op = "crash" THEN ans ELSE e.ans
              /\ broken' = b
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
