------------------------------ MODULE Quantile ------------------------------
(* Regression quantiles of integer data, exactly.  A level is t tenths.  A line  *)
(* through the points i and j is kept as integers over D = x_j - x_i > 0; the     *)
(* optimum of the check loss is reached by such a line.  The machine compares     *)
(* all candidates one by one.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Xs, Slope, Errs, Levels, Gap
VARIABLES y, t, todo, best, worse
vars == <<y, t, todo, best, worse>>
N == Len(Xs)
Pairs == {p \in (1..N) \X (1..N) : Xs[p[1]] < Xs[p[2]]}
D(p) == Xs[p[2]] - Xs[p[1]]
(* residual of the point k times D *)
Res(s, p, k) == (s[k] - s[p[1]]) * D(p) - (s[p[2]] - s[p[1]]) * (Xs[k] - Xs[p[1]])
Loss(r, l) == IF r > 0 THEN l * r ELSE (l - 10) * r
RECURSIVE SumLoss(_, _, _, _)
SumLoss(s, p, l, k) == IF k = 0 THEN 0 ELSE Loss(Res(s, p, k), l) + SumLoss(s, p, l, k - 1)
Cost(s, p, l) == SumLoss(s, p, l, N)                       \* times 10 D
Cheaper(s, p, q, l) == Cost(s, p, l) * D(q) < Cost(s, q, l) * D(p)
Init == /\ y \in {[k \in 1..N |-> Slope * Xs[k] + e[k]] : e \in [1..N -> Errs]}
        /\ t \in Levels /\ todo = Pairs /\ best = <<>> /\ worse = <<>>
Next1(S) == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Same(s, p, q) == \A k \in 1..N : Res(s, p, k) * D(q) = Res(s, q, k) * D(p)
Try == /\ todo # {}
       /\ LET p == Next1(todo)
          IN /\ todo' = todo \ {p}
             /\ IF best = <<>> THEN best' = p /\ worse' = worse
                ELSE IF Same(y, p, best) THEN UNCHANGED <<best, worse>>
                ELSE IF Cheaper(y, p, best, t) THEN best' = p /\ worse' = best
                ELSE /\ best' = best
                     /\ worse' = IF worse = <<>> \/ Cheaper(y, p, worse, t) THEN p ELSE worse
       /\ UNCHANGED <<y, t>>
(* the optimum is alone by more than Gap percents: the numerical solution must be close *)
Clear == worse # <<>> /\ (Cost(y, worse, t) * D(best) - Cost(y, best, t) * D(worse)) * 100 > Gap * Cost(y, best, t) * D(worse)
Rising == y[best[2]] > y[best[1]]
Emit == /\ todo = {} /\ Clear /\ Rising
        /\ PrintT("CASE " \o ToJson([y |-> y, t |-> t, d |-> D(best), rise |-> y[best[2]] - y[best[1]],
                                     x0 |-> Xs[best[1]], y0 |-> y[best[1]]]))
        /\ FALSE /\ UNCHANGED vars
Next == Try \/ Emit
Spec == Init /\ [][Next]_vars

Finished == todo = {}
Optimal == Finished => \A p \in Pairs : ~Cheaper(y, p, best, t)
(* the share of points under the line is the level, up to the points on it *)
Below == Cardinality({k \in 1..N : Res(y, best, k) < 0})
AtMost == Cardinality({k \in 1..N : Res(y, best, k) <= 0})
Share == Finished => Below * 10 <= t * N /\ t * N <= AtMost * 10
=============================================================================
