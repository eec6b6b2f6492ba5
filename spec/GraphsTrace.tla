----------------------------- MODULE GraphsTrace -----------------------------
(* Recorded drawing sessions.  A "draw" event holds the options, whether it was     *)
(* accepted, the curves, lines and legend found in the axes, the files of the       *)
(* directory, and the answers of the study at the same places.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES at_, files
vars == <<at_, files>>
G == INSTANCE Graphs WITH Levels <- {}, Confs <- {}, Lows <- {}, Highs <- {}, Counts <- {}, Names <- {}, Reach <- {}, Bounded <- FALSE, MaxLen <- 0, shown <- {}, hist <- <<>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Set(s) == {s[i] : i \in 1..Len(s)}
Legend(e, k) == {e.legend[i] : i \in {j \in 1..Len(e.legend) : e.legend[j].k = k}}
(* percent p as a number of the trace *)
Percent(p) == <<p \div 100, (p % 100) * 10000000>>
Curve(e, name, c) ==
  Clause("number_of_points_" \o name, Len(c.x) = e.o.nb)
  \cup Clause("range_of_" \o name, SeqClose(c.x, e.x, 100))
  \cup Clause("values_of_" \o name, SeqClose(c.y, c.ref, 1000))
Size(e, name, s, want) ==
  Clause("place_of_" \o name, Close(s[1], want, 10))
  \cup Clause("height_of_" \o name, Close(s[2], Zero, 1) /\ Close(s[3], Percent(e.o.level), 1))
Drawn(e) ==
  LET els == G!Elements(e.o) IN
  Clause("elements_of_the_graph", Set(e.els) = els)
  \cup Clause("legend_entries", {l.k : l \in Set(e.legend)} = els /\ Len(e.legend) = Cardinality(els))
  \cup Clause("title", e.title)
  \cup (IF Set(e.els) # els THEN {} ELSE
        Curve(e, "pod", e.pod)
        \cup (IF "cl" \in els THEN Curve(e, "cl", e.cl) ELSE {})
        \cup (IF "level" \in els THEN
                Clause("level_line", Close(e.level[1], e.x[1], 100) /\ Close(e.level[2], e.x[Len(e.x)], 100) /\ Close(e.level[3], Percent(e.o.level), 1))
                \cup Size(e, "size", e.size, e.sizes[1])
              ELSE {})
        \cup (IF "size_cl" \in els THEN Size(e, "size_cl", e.size_cl, e.sizes[2]) ELSE {}))
  \cup UNION {CASE l.k = "pod" -> {}
                [] l.k = "cl" -> Clause("legend_confidence", l.c = e.o.cl)
                [] l.k = "level" -> Clause("legend_level", l.p = e.o.level)
                [] l.k = "size" -> Clause("legend_size", l.p = e.o.level /\ (e.sizes # <<>> => Close(l.v, e.sizes[1], 500001)))
                [] l.k = "size_cl" -> Clause("legend_size_cl", l.p = e.o.level /\ l.c = e.o.cl /\ (Len(e.sizes) > 1 => Close(l.v, e.sizes[2], 500001)))
                [] OTHER -> {"legend_unknown_entry"} : l \in Set(e.legend)}
Judge(e) ==
  CASE e.op = "crash" -> {"unexpected_failure"}
    [] e.op = "start" -> {}
    [] e.op = "draw" -> Clause(IF G!Accepts(e.o, e.bounded, e.reached) THEN "graph_drawn" ELSE "graph_refused", e.ok = G!Accepts(e.o, e.bounded, e.reached))
                        \cup Clause("files", Set(e.files) = G!Written(files, e.o, e.ok))
                        \cup (IF e.ok THEN Drawn(e) ELSE {})
    [] e.op = "iterations" ->
         Clause("one_graph_per_iteration", IF e.on THEN G!Batches(e.more, e.batch, e.shown) ELSE e.shown = 0)
         \cup Clause("one_file_per_graph_in_the_directory", e.files = IF e.on /\ e.dir THEN [i \in 1..e.shown |-> i] ELSE <<>>)
         \cup Clause("no_other_file", e.others = <<>>)
    [] e.op = "elements" -> Clause("elements_of_the_graph", Set(e.els) = G!Elements(e.o) /\ {l.k : l \in Set(e.legend)} = G!Elements(e.o))
    [] e.op = "saved" -> Clause("file_only_when_named", Set(e.new) = (IF e.ok /\ e.named THEN {"asked"} ELSE {}))
    [] e.op = "refused" -> Clause("refused_" \o e.what, ~e.ok)
    [] e.op = "accepted" -> Clause("accepted_" \o e.what, e.ok)
    [] e.op = "near" -> Clause(e.what, Len(e.got) = Len(e.ref) /\ \A i \in 1..Len(e.got) : Same(e.got[i], e.ref[i], e.tol[i]))
    [] e.op = "inside" -> Clause(e.what, \A i \in 1..Len(e.got) : Le(e.lo, e.got[i]) /\ Le(e.got[i], e.hi))
    [] OTHER -> {"unknown_event"}
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ files' = IF e.op = "start" THEN {} ELSE IF e.op = "draw" THEN Set(e.files) ELSE files
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Init == at_ = 1 /\ files = {}
Spec == Init /\ [][Next]_vars
=============================================================================
