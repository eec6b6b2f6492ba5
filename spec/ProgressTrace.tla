--------------------------- MODULE ProgressTrace ---------------------------
(* A recorded run: reports is the sequence of progress lines written on the     *)
(* standard output, pct in hundredths of a percent.                             *)
EXTENDS TraceBase
Abs(a) == IF a < 0 THEN -a ELSE a
Count(s) == Len(SelectSeq(s, LAMBDA r : r.done))
Verdict(e) ==
  CASE e.op = "progress" ->
       LET R == e.reports IN
         Clause("one_final_report_per_loop", Count(R) = e.loops)
         \cup Clause("ends_with_100", Len(R) > 0 => R[Len(R)].done)
         \cup Clause("final_is_100", \A k \in 1..Len(R) : R[k].done <=> R[k].pct = 10000)
         \cup Clause("percentages_increase", \A k \in 1..(Len(R) - 1) : R[k].done \/ R[k].pct <= R[k + 1].pct)
         \cup Clause("percentages_in_range", \A k \in 1..Len(R) : R[k].pct >= 0 /\ R[k].pct <= 10000)
         \cup Clause("bar_length", \A k \in 1..Len(R) : R[k].block + R[k].rest = e.bar)
         \cup Clause("bar_matches_percentage",
                \A k \in 1..Len(R) : Abs(R[k].block * 10000 - e.bar * R[k].pct) <= 5000 + e.bar)
         \cup Clause("percentage_is_an_iteration",   \* k of n iterations done, up to the two printed digits
                e.n = 0 \/ \A k \in 1..Len(R) : \E j \in 1..e.n : Abs(R[k].pct * e.n - 10000 * j) <= e.n)
    [] e.op = "verbose" ->
         Clause("quiet_when_off", e.quiet = 0)
         \cup Clause("same_results", e.on = e.off)
         \cup Clause("answers_exist", e.nb > 0)
    [] OTHER -> {"unknown_event"}
=============================================================================
