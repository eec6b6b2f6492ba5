---------------------------- MODULE LinearTrace ----------------------------
EXTENDS TraceBase
L == INSTANCE LinearPOD WITH Designs <- {}, Vals <- {}, Dets <- {}, Sizes <- {},
                             x <- <<>>, y <- <<>>, d <- 0, a <- 0, i <- 0, hits <- 0
Lo(e, k) == L!Above(e.x, e.y, e.d, e.grid[k])
Hi(e, k) == L!AtLeast(e.x, e.y, e.d, e.grid[k])
Verdict(e) ==
  CASE e.op = "binomial" ->   \* ngot: n * POD;  cl[l][k]: confidence curve;  tab[l][r + 1]: Beta bound
       Clause("pod_is_fraction_of_residuals",
              \A k \in 1..Len(e.grid) : \E r \in Lo(e, k)..Hi(e, k) : Close(e.ngot[k], <<r, 0>>, 1000))
    [] e.op = "binomialcl" ->
       Clause("confidence_is_beta_bound",
              \A l \in 1..Len(e.tab) : \A k \in 1..Len(e.grid) :
                 \E r \in Lo(e, k)..Hi(e, k) : Close(e.cl[l][k], e.tab[l][r + 1], 1000))
    [] e.op = "gauss" ->      \* terms[k] = <<margin, pred>>, rss, ref[k] = normal tail at the t they define
       Clause("terms", /\ e.rss = L!Rss(e.x, e.y)
                       /\ \A k \in 1..Len(e.grid) : e.terms[k] = <<L!Margin(e.x, e.y, e.d, e.grid[k]),
                                                                   L!Pred(e.x, e.grid[k])>>)
       \cup Clause("pod_is_normal_tail", SeqClose(e.got, e.ref, 200))
    [] e.op = "curve" -> Clause("curve_" \o e.kind, SeqClose(e.got, e.ref, e.tol))
    [] e.op = "r2" -> Clause("r2", Close(e.got, e.ref, e.tol))
    [] e.op = "rank" ->       \* share of reference curves under the observed bound, against 1 - confidence
       Clause("confidence_is_quantile_of_curves", Close(e.rank, e.want, e.tol))
    [] e.op = "single" -> Clause("one_curve_when_one_simulation", SeqClose(e.lo, e.hi, 1000))
    [] e.op = "spread" -> Clause("curves_are_random", ~SeqClose(e.lo, e.hi, 1000))
    [] e.op = "distinct" -> Clause("one_order_statistic_per_simulation",
                                   \A k \in 1..(Len(e.cl) - 1) : Lt(e.cl[k], e.cl[k + 1]))
    [] e.op = "nested" -> Clause("nested", \A k \in 1..(Len(e.cl) - 1) : \A j \in 1..Len(e.cl[k]) :
                                             LeTol(e.cl[k + 1][j], e.cl[k][j], 1000))
    [] e.op = "crossing" -> Clause("binomial_nested_full", \A k \in 1..(Len(e.cl) - 1) : LeTol(e.cl[k + 1], e.cl[k], 1000))
    [] OTHER -> {"unknown_event"}
=============================================================================
