----------------------------- MODULE EnrichTrace -----------------------------
(* Recorded adaptive studies against Enrich.  Points are numbered by the recorder*)
(* (equal coordinates, equal number); signals are numbers of Num.                *)
(*   start: the data given, the thresholds, the design right after construction *)
(*   call:  one evaluation of the model, with what it returned                  *)
(*   run:   the design after run() returned or raised                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES at_, pts, sig, calls
vars == <<at_, pts, sig, calls>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}
NoDuplicates(s) == Cardinality(Range(s)) = Len(s)
Init == at_ = 1 /\ pts = <<>> /\ sig = <<>> /\ calls = <<>>
(* censoring: signals strictly between the thresholds are kept (Censor)         *)
Keep(e, i) == \/ e.thr = <<>>
              \/ Lt(e.thr[1], e.ys[i]) /\ Lt(e.ys[i], e.thr[2])
KeptIdx(e) == SelectSeq([i \in 1..Len(e.ys) |-> i], LAMBDA i : Keep(e, i))
(* outcome of a signal: itself, or whether it exceeds the detection threshold    *)
Outcome(det, v) == IF det = <<>> THEN v ELSE IF Lt(det[1], v) THEN One ELSE Zero
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
PrefixClose(s, t, tol) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], tol)
New(e) == SubSeq(e.pts, Len(pts) + 1, Len(e.pts))
Good == SelectSeq(calls, LAMBDA c : c.ok)
Times(p) == Cardinality({i \in 1..Len(calls) : calls[i].id = p})
ValueOf(p) == (CHOOSE i \in 1..Len(calls) : calls[i].id = p /\ calls[i].ok)
InBox(x, lo, hi) == \A k \in 1..Len(x) : Le(lo[k], x[k]) /\ Le(x[k], hi[k])
SmallestOf(S) == CHOOSE v \in S : \A w \in S : Le(v, w)
LargestOf(S) == CHOOSE v \in S : \A w \in S : Le(w, v)
Coord(e, k, n) == {e.xs[i][k] : i \in 1..n}
(* default law: over the studied sizes, then over the design at the start of the run *)
Lo(e) == IF e.lo # <<>> THEN e.lo ELSE [k \in 1..Len(e.xs[1]) |-> IF k = 1 THEN e.size[1] ELSE SmallestOf(Coord(e, k, Len(pts)))]
Hi(e) == IF e.hi # <<>> THEN e.hi ELSE [k \in 1..Len(e.xs[1]) |-> IF k = 1 THEN e.size[2] ELSE LargestOf(Coord(e, k, Len(pts)))]
Run(e) ==
  LET n == Len(pts) IN
       Clause("as_many_signals_as_points", Len(e.pts) = Len(e.sig))
  \cup Clause("earlier_points_untouched", Prefix(pts, e.pts))
  \cup Clause("earlier_signals_untouched", PrefixClose(sig, e.sig, e.tol))
  \cup (IF ~Prefix(pts, e.pts) \/ Len(e.pts) # Len(e.sig) THEN {}
        ELSE Clause("points_are_distinct", \A i \in (n + 1)..Len(e.pts) : \A j \in 1..(i - 1) : e.pts[i] # e.pts[j])
        \cup Clause("points_are_evaluated", \A p \in Range(New(e)) : \E i \in 1..Len(calls) : calls[i].id = p /\ calls[i].ok)
        \cup Clause("signal_is_what_the_model_returned",
                    \A i \in (n + 1)..Len(e.pts) : \E c \in 1..Len(calls) :
                        calls[c].id = e.pts[i] /\ calls[c].ok /\ Close(e.sig[i], Outcome(e.det, calls[c].v), e.tol))
        \cup Clause("points_within_the_law", \A i \in (n + 1)..Len(e.pts) : InBox(e.xs[i], Lo(e), Hi(e)) /\ e.onlaw[i])
        \cup (IF e.ok THEN Clause("exactly_the_requested_number", Len(e.pts) = n + e.more)
                      ELSE Clause("never_too_many", Len(e.pts) <= n + e.more))
        \cup (IF e.kind # "adaptive" THEN {}
              ELSE Clause("evaluated_once", \A p \in Range(New(e)) : Times(p) = 1)
              \cup (IF e.ok THEN Clause("nothing_else_evaluated", \A c \in 1..Len(calls) : calls[c].id \in Range(New(e))) ELSE {})))
  \cup Clause("run_succeeds_when_the_model_does", e.ok \/ \E i \in 1..Len(calls) : ~calls[i].ok)
  \cup Clause("failure_is_reported", ~e.ok \/ \A i \in 1..Len(calls) : calls[i].ok)
(* i may be the smallest of values known by bounds *)
Smallest(lo, up, i, tol) == \A j \in 1..Len(up) : LeTol(lo[i], up[j], tol)
Judge(e) ==
  CASE e.op = "crash" -> {"unexpected_failure"}
    [] e.op = "start" -> Clause("design_starts_from_the_kept_points",
                            LET k == KeptIdx(e) IN
                            /\ e.pts = [i \in 1..Len(k) |-> e.given[k[i]]]
                            /\ SeqClose(e.sig, [i \in 1..Len(k) |-> Outcome(e.det, e.ys[k[i]])], e.tol))
    [] e.op = "call" -> {}
    [] e.op = "run" -> Run(e)
    [] e.op = "ref" -> Clause(e.what, Len(e.got) = Len(e.ref) /\ \A i \in 1..Len(e.ref) : Close(e.got[i], e.ref[i], e.tol[i]))
    [] e.op = "rank" -> Clause(e.what, Close(e.rank, e.want, e.tol))
    \* candidates of a sequence: which one is taken.  Logarithm of the criterion, with the covariance
    \* parameters in force (kept) or estimated again with the candidate
    [] e.op = "choice" -> Clause("added_point_is_a_candidate", e.chosen > 0)
                     \cup Clause("added_point_minimizes_the_criterion", e.chosen = 0 \/ Smallest(e.kept, e.keptup, e.chosen, e.tol) \/ Smallest(e.estimated, e.estimatedup, e.chosen, e.tol))
    [] e.op = "window" -> LET In(p) == Le(e.lo, p) /\ Lt(p, e.hi) IN
                          Clause("added_point_is_a_candidate", e.chosen > 0)
                     \cup Clause("added_point_is_in_the_probability_window", e.chosen = 0 \/ In(e.probs[e.chosen]) \/ \A j \in 1..Len(e.probs) : ~In(e.probs[j]))
    \* one improvement of a hit/miss study: the batch evaluated, probabilities by the classifier in force
    [] e.op = "batch" -> LET May(p) == LeTol(e.lo, p, e.tol) /\ LeTol(p, e.hi, e.tol)
                             Inside(p) == ~LeTol(p, e.lo, e.tol) /\ ~LeTol(e.hi, p, e.tol)
                         IN Clause("added_points_are_candidates", \A i \in 1..Len(e.chosen) : e.chosen[i] > 0)
                       \cup Clause("added_points_are_in_the_probability_window",
                                  \/ \E i \in 1..Len(e.chosen) : e.chosen[i] = 0
                                  \/ \A i \in 1..Len(e.chosen) : May(e.probs[e.chosen[i]])
                                  \/ \A j \in 1..Len(e.probs) : ~Inside(e.probs[j]))
    \* covariance scales after an added point: kept when the predictivity is above 0.95, estimated again otherwise
    [] e.op = "theta" -> LET Kept == SeqClose(e.new, e.old, 1000) IN
                         Clause("scales_kept_while_the_model_predicts_well", ~(e.fixed \/ Lt(<<0, 955000000>>, e.q2)) \/ Kept)
                    \cup Clause("scales_estimated_again_otherwise", e.fixed \/ ~Lt(e.q2, <<0, 945000000>>) \/ ~Kept \/ LeTol(e.best, e.here, 50000000))
                    \cup Clause("reported_predictivity", ~e.sure \/ Close(e.reported, e.final, 100000))
    [] e.op = "size" -> Clause("built_on_the_enriched_design", e.n = Len(pts))
    [] e.op = "holds" -> Clause(e.what, e.ok)
    [] OTHER -> {"unknown_event"}
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ CASE e.op = "start" -> pts' = e.pts /\ sig' = e.sig /\ calls' = <<>>
                   [] e.op = "call" -> calls' = Append(calls, e) /\ UNCHANGED <<pts, sig>>
                   [] e.op = "run" -> pts' = e.pts /\ sig' = e.sig /\ calls' = <<>>
                   [] OTHER -> UNCHANGED <<pts, sig, calls>>
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
