----------------------------- MODULE PliPodTrace ----------------------------
(* Recorded perturbation studies of a POD.  e.sizes: numbers of the reported sizes;*)
(* e.nan: "none", "all" or "some" undefined entries for each of them; e.obj: is     *)
(* there an object; e.class: class of the probability estimated at each size when  *)
(* it was seen (2 when not); e.sure / e.never: sizes certainly kept / left out.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES at_, sizes, law, res
vars == <<at_, sizes, law, res>>
S == INSTANCE PliPod WITH Chosen <- {}, Sizes <- {}, Laws <- {}, Dull <- {}, MaxLen <- 0, hist <- <<>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Set(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Init == at_ = 1 /\ sizes = {} /\ law = 1 /\ res = S!None
Sizes(e) == CASE e.op = "start" -> Set(e.sizes) [] e.op = "sizes" -> Set(e.s) [] OTHER -> sizes
HasObject(e) == {e.sizes[i] : i \in {j \in 1..Len(e.sizes) : e.obj[j]}}
(* what a run has to keep, must <= kept <= may *)
At(e, t) == e.class[CHOOSE i \in 1..Len(e.sizes) : e.sizes[i] = t]
Must(e) == {t \in sizes : t \in Set(e.sizes) /\ (IF At(e, t) = 2 THEN t \in Set(e.sure) ELSE S!Informative(At(e, t)))}
May(e) == {t \in sizes : t \in Set(e.sizes) /\ (IF At(e, t) = 2 THEN t \notin Set(e.never) ELSE S!Informative(At(e, t)))}
Res(e) == CASE e.op \in {"start", "sizes"} -> S!None
            [] e.op = "run" -> [kept |-> (HasObject(e) \cap May(e)) \cup Must(e), ran |-> TRUE]
            [] OTHER -> res
Table(e, r) ==
  Clause("reported_sizes", Set(e.sizes) = Sizes(e) /\ Sorted(e.sizes))
  \cup Clause("one_entry_per_delta_input_and_size", e.shape = <<e.nd, e.dim, Len(e.sizes)>>)
  \cup Clause("objects_only_where_informative", HasObject(e) = r.kept)
  \cup (IF r.ran /\ Len(e.nan) = Len(e.sizes) THEN
          Clause("undefined_exactly_where_uninformative", \A i \in 1..Len(e.sizes) : e.nan[i] = (IF e.sizes[i] \in r.kept THEN "none" ELSE "all"))
        ELSE {})
Judge(e) ==
  CASE e.op = "crash" -> {"unexpected_failure"}
    [] e.op = "refused" -> Clause("refused_" \o e.what, ~e.ok)
    [] e.op = "accepted" -> Clause("accepted_" \o e.what, e.ok)
    [] e.op = "near" -> Clause(e.what, Len(e.got) = Len(e.ref) /\ \A i \in 1..Len(e.got) : Same(e.got[i], e.ref[i], e.tol[i]))
    [] e.op \in {"bad_sizes", "bad_law"} -> Clause("invalid_refused", ~e.ok) \cup Table(e, res)
    [] OTHER -> Clause("step_accepted", e.ok) \cup Table(e, Res(e))
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ IF e.op \in {"crash", "refused", "accepted", "near"} THEN UNCHANGED <<sizes, law, res>>
                 ELSE /\ sizes' = Sizes(e) /\ res' = Res(e)
                      /\ law' = IF e.op = "start" THEN 1 ELSE IF e.op = "law" THEN e.s[1] ELSE law
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
