---------------------------- MODULE CurvesTrace ----------------------------
EXTENDS TraceBase
C == INSTANCE Curves WITH Knots <- <<>>, K <- 1, Sims <- 1, Percents <- {}, val <- <<>>
(* P / Q as a number, Q > 0, Q < 2000 *)
Ratio(P, Q) == <<P \div Q, (((P % Q) * 1000000) \div Q) * 1000>>
Name(p, c) == "a" \o ToString(p) \o (IF c < 0 THEN "" ELSE "/" \o ToString(c))
AtPlace(e, k) == IF e.v[k] = e.v[k + 1]
                 THEN LeTol(<<e.knots[k], 0>>, e.got, e.tol) /\ LeTol(e.got, <<e.knots[k + 1], 0>>, e.tol)
                 ELSE Close(e.got, Ratio(C!PlaceNum(e.knots, e.v, e.top, k, e.p), C!PlaceDen(e.v, k)), e.tol)
Between(x, a, b, tol) == (LeTol(a, x, tol) /\ LeTol(x, b, tol)) \/ (LeTol(b, x, tol) /\ LeTol(x, a, tol))
Verdict(e) ==
  CASE e.op = "knots" ->      \* an exact curve on its list of sizes and at the quarters in between
       Clause("linear_between_sizes",
              \A k \in 1..(Len(e.v) - 1) : \A q \in 0..4 :
                Close(e.got[k][q + 1], Ratio(C!Quarter(e.v, k, q), 4 * e.top), 2000))
    [] e.op = "mean" ->       \* mean of two configurations of known weights
       Clause("mean_of_simulations",
              \A k \in 1..Len(e.lo) : /\ LeTol(Ratio(e.lo[k], e.top), e.got[k], 2000)
                                      /\ LeTol(e.got[k], Ratio(e.hi[k], e.top), 2000)
                                      /\ Close(e.got[k], Ratio(e.mix[k], 100 * e.top), e.tol))
    [] e.op = "solve" ->      \* size for p percents on the curve v; e.pod: the ends of the POD curve
       LET p == Ratio(e.p, 100)
           pod == Le(e.pod[1], p) /\ Le(p, e.pod[2])
           limit == Close(e.pod[1], p, 2) \/ Close(e.pod[2], p, 2)
       IN (IF limit /\ ~e.sure THEN {}
           ELSE IF C!Spans(e.v, e.top, e.p) /\ (pod \/ e.sure) THEN Clause("size_given_when_spanned", e.ok)
           ELSE Clause("refused_when_not_spanned", ~e.ok))
          \cup (IF e.ok THEN Clause("in_studied_range", LeTol(<<e.knots[1], 0>>, e.got, e.tol)
                                                       /\ LeTol(e.got, <<e.knots[Len(e.knots)], 0>>, e.tol))
                             \cup Clause("curve_has_the_level_there",
                                         \E k \in C!Reach(e.v, e.top, e.p) : AtPlace(e, k))
                ELSE {})
    [] e.op = "names" -> Clause("names", e.got = [i \in 1..Len(e.ps) |-> Name(e.ps[i], e.cs[i])])
    [] e.op = "first" -> Clause("same_first_value", e.n1 = 1 /\ e.n2 = 2 /\ e.one = e.two)
    [] e.op = "unit" -> Clause("probability_" \o e.kind, \A k \in 1..Len(e.got) : InUnitTol(e.got[k], 1))
    [] e.op = "nested" -> Clause("nested_" \o e.kind, \A k \in 1..(Len(e.cl) - 1) : \A j \in 1..Len(e.cl[k]) :
                                                         LeTol(e.cl[k + 1][j], e.cl[k][j], 10))
    [] e.op = "crossing" -> Clause("binomial_nested_full", \A k \in 1..(Len(e.cl) - 1) : LeTol(e.cl[k + 1], e.cl[k], 10))
    [] e.op = "edge" ->       \* a call outside (must fail) or inside (must succeed) the studied sizes
       IF e.inside THEN Clause("inside_accepted_" \o e.what, e.ok) ELSE Clause("outside_refused_" \o e.what, ~e.ok)
    [] e.op = "bracket" ->    \* any curve: f its values at the ends, left/right around the size
       LET span == Le(e.ends[1], e.p) /\ Le(e.p, e.ends[2])
           limit == Close(e.ends[1], e.p, 2) \/ Close(e.ends[2], e.p, 2)
       IN (IF limit THEN {}
           ELSE IF span THEN Clause("size_given_when_spanned", e.ok) ELSE Clause("refused_when_not_spanned", ~e.ok))
          \cup (IF e.ok THEN Clause("in_studied_range", Le(e.range[1], e.got) /\ Le(e.got, e.range[2]))
                             \cup Clause("curve_has_the_level_there", Between(e.p, e.left, e.right, e.tol)) ELSE {})
    [] OTHER -> {"unknown_event"}
=============================================================================
