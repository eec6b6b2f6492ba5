------------------------------- MODULE Curves -------------------------------
(* POD curves given at a list of defect sizes and linear in between.  At each    *)
(* size every simulated configuration has a probability val[k][s] / K; the POD   *)
(* curve is their mean, a confidence curve is one of their order statistics.     *)
(* Everything is exact integer arithmetic.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Knots, K, Sims, Percents
VARIABLES val
vars == <<val>>
M == Len(Knots)
Init == val = <<>>
Measure(f) == Len(val) < M /\ val' = Append(val, f)
Emit == Len(val) = M /\ PrintT("CASE " \o ToJson([v |-> val])) /\ FALSE /\ UNCHANGED vars
Next == (\E f \in [1..Sims -> 0..K] : Measure(f)) \/ Emit
Spec == Init /\ [][Next]_vars

(* order statistic j of the simulated values *)
Order(f, j) == CHOOSE x \in {f[s] : s \in DOMAIN f} :
                 /\ Cardinality({s \in DOMAIN f : f[s] < x}) < j
                 /\ Cardinality({s \in DOMAIN f : f[s] <= x}) >= j
OrderCurve(j) == [k \in 1..Len(val) |-> Order(val[k], j)]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumCurve == [k \in 1..Len(val) |-> SumTo(val[k], Sims)]          \* times 1 / (K * Sims)

(* a curve v over 0..Top at the knots a; p percents of Top *)
Spans(v, top, p) == v[1] * 100 <= p * top /\ p * top <= v[Len(v)] * 100
(* the segments that reach the level p *)
Reach(v, top, p) == {k \in 1..(Len(v) - 1) :
                      \/ v[k] * 100 <= p * top /\ p * top <= v[k + 1] * 100
                      \/ v[k + 1] * 100 <= p * top /\ p * top <= v[k] * 100}
(* place where the segment k has the level p, as a fraction num / den (den > 0)  *)
PlaceDen(v, k) == IF v[k + 1] > v[k] THEN 100 * (v[k + 1] - v[k]) ELSE 100 * (v[k] - v[k + 1])
PlaceNum(a, v, top, k, p) ==
  a[k] * PlaceDen(v, k) + (a[k + 1] - a[k]) * (IF v[k + 1] > v[k] THEN p * top - v[k] * 100 ELSE v[k] * 100 - p * top)
(* value at the quarter q/4 of the segment k, times 4 * Top *)
Quarter(v, k, q) == (4 - q) * v[k] + q * v[k + 1]

Full == Len(val) = M
Unit == \A k \in 1..Len(val) : 0 <= SumCurve[k] /\ SumCurve[k] <= K * Sims
Nested == \A k \in 1..Len(val) : \A j \in 1..(Sims - 1) : Order(val[k], j) <= Order(val[k], j + 1)
Bound == \A k \in 1..Len(val) : Sims * Order(val[k], 1) <= SumCurve[k] /\ SumCurve[k] <= Sims * Order(val[k], Sims)
Curvesp == {OrderCurve(j) : j \in 1..Sims}
Solvable == Full => \A v \in Curvesp : \A p \in Percents :
              /\ Spans(v, K, p) => Reach(v, K, p) # {}
              /\ \A k \in Reach(v, K, p) : v[k] # v[k + 1] =>
                   /\ Knots[k] * PlaceDen(v, k) <= PlaceNum(Knots, v, K, k, p)
                   /\ PlaceNum(Knots, v, K, k, p) <= Knots[k + 1] * PlaceDen(v, k)
(* a larger confidence (smaller order statistic) needs a larger defect when the curves rise *)
Later == Full => \A p \in Percents : \A j \in 1..(Sims - 1) :
           LET lo == OrderCurve(j)  hi == OrderCurve(j + 1)
           IN (Spans(lo, K, p) /\ Spans(hi, K, p) /\ \A k \in 1..(M - 1) : lo[k] <= lo[k + 1] /\ hi[k] <= hi[k + 1])
              => \A k \in Reach(lo, K, p) : \E m \in Reach(hi, K, p) : m <= k
=============================================================================
