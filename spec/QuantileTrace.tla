--------------------------- MODULE QuantileTrace ---------------------------
EXTENDS TraceBase
Twice(a) == IF a[2] >= 500000000 THEN <<2 * a[1] + 1, 2 * a[2] - Nano>> ELSE <<2 * a[1], 2 * a[2]>>
Plus(a, b) == IF a[2] + b[2] >= Nano THEN <<a[1] + b[1] + 1, a[2] + b[2] - Nano>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Between(x, a, b, tol) == (LeTol(a, x, tol) /\ LeTol(x, b, tol)) \/ (LeTol(b, x, tol) /\ LeTol(x, a, tol))
Verdict(e) ==
  CASE e.op = "exact" ->     \* got1000: crossing given by the study, in thousandths
       LET num == (e.x0 * e.rise + (e.det - e.y0) * e.d) * 1000
       IN Clause("crossing_of_regression_quantile", e.ok /\ e.got1000 * e.rise - num <= e.far * e.rise
                                                         /\ num - e.got1000 * e.rise <= e.far * e.rise)
    [] e.op = "share" ->     \* over all exact cases: how many are within the narrow tolerance
       Clause("crossings_close_to_optimum", e.near * 100 >= e.all * e.percent)
    [] e.op = "size" -> Clause("size_is_crossing_of_line", IF e.inside THEN e.ok /\ Close(e.got, e.want, e.tol) ELSE ~e.ok)
    [] e.op = "knot" -> Clause("curve_passes_through_crossing", Between(e.p, e.left, e.right, 2000))
    [] e.op = "mid" ->       \* three equally spaced abscissae between two consecutive sizes
       Clause("linear_between_crossings", Close(Twice(e.f[2]), Plus(e.f[1], e.f[3]), 2000))
    [] e.op = "zero" -> Clause("zero_at_zero", Close(e.got, Zero, 10))
    [] e.op = "end" -> Clause("last_value_is_largest_probability", Close(e.got, e.p, 2000))
    [] e.op = "r2" -> Clause("pseudo_r2", Close(e.got, e.want, e.tol))
    [] e.op = "rank" -> Clause("confidence_is_quantile_of_crossings", Close(e.rank, e.want, e.tol))
    [] e.op = "single" -> Clause("one_sample_one_curve", SeqClose(e.lo, e.hi, 20000))
    [] e.op = "spread" -> Clause("samples_are_random", ~SeqClose(e.lo, e.hi, 20000))
    [] e.op = "distinct" -> Clause("one_order_statistic_per_sample",
                                   /\ \A k \in 1..(Len(e.at) - 1) : LeTol(e.at[k], e.at[k + 1], 20000)
                                   /\ Cardinality({k \in 1..(Len(e.at) - 1) : ~Close(e.at[k], e.at[k + 1], 20000)}) >= e.least
                                   /\ Cardinality({k \in 1..(Len(e.at) - 1) : ~Close(e.at[k], e.at[k + 1], 20000)}) <= e.most)
    [] OTHER -> {"unknown_event"}
=============================================================================
