------------------------------ MODULE LinearPOD ------------------------------
(* POD of a univariate linear model on integer data, in exact integer           *)
(* arithmetic.  With D the determinant of the normal equations,                 *)
(*     line(a) = (I + S a) / D,   residual_i = y_i - line(x_i),                  *)
(* the residual i exceeds the gap  d - line(a)  iff  y_i D - S x_i > d D - S a. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Designs, Vals, Dets, Sizes
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
Sx(x) == Sum(x)
Sxx(x) == Sum([i \in 1..Len(x) |-> x[i] * x[i]])
Sxy(x, y) == Sum([i \in 1..Len(x) |-> x[i] * y[i]])
Det(x) == Len(x) * Sxx(x) - Sx(x) * Sx(x)
Slope(x, y) == Len(x) * Sxy(x, y) - Sx(x) * Sum(y)                       \* times Det
Inter(x, y) == Sum(y) * Sxx(x) - Sx(x) * Sxy(x, y)                       \* times Det
Excess(x, y, d, a, i) == (y[i] * Det(x) - Slope(x, y) * x[i]) - (d * Det(x) - Slope(x, y) * a)
Above(x, y, d, a) == Cardinality({i \in 1..Len(x) : Excess(x, y, d, a, i) > 0})
AtLeast(x, y, d, a) == Cardinality({i \in 1..Len(x) : Excess(x, y, d, a, i) >= 0})
(* normal residuals: t = Margin * sqrt(n (n - 2) / (Rss * Pred)) *)
Margin(x, y, d, a) == d * Det(x) - Inter(x, y) - Slope(x, y) * a
Rss(x, y) == (Len(x) * Sxx(y) - Sum(y) * Sum(y)) * Det(x) - Slope(x, y) * Slope(x, y)
Pred(x, a) == Det(x) + Sxx(x) - 2 * a * Sx(x) + Len(x) * a * a

VARIABLES x, y, d, a, i, hits
vars == <<x, y, d, a, i, hits>>
Init == /\ x \in Designs /\ y \in [1..Len(x) -> Vals] /\ d \in Dets /\ a \in Sizes
        /\ i = 0 /\ hits = 0
Scan == /\ i < Len(x) /\ i' = i + 1
        /\ hits' = IF Excess(x, y, d, a, i') > 0 THEN hits + 1 ELSE hits
        /\ UNCHANGED <<x, y, d, a>>
Emit == /\ i = 0 /\ \A b \in Sizes : a <= b
        /\ PrintT("CASE " \o ToJson([x |-> x, y |-> y, d |-> d, rss |-> Rss(x, y)]))
        /\ FALSE /\ UNCHANGED vars
Next == Scan \/ Emit
Spec == Init /\ [][Next]_vars
Counted == (i = Len(x)) => hits = Above(x, y, d, a)
Bounded == hits >= 0 /\ hits <= i
(* the curve rises with the defect size when the line does, and falls when the  *)
(* detection threshold rises                                                     *)
Rises == (i = 0 /\ Slope(x, y) >= 0) => Above(x, y, d, a) <= Above(x, y, d, a + 1)
Falls == (i = 0) => Above(x, y, d + 1, a) <= Above(x, y, d, a)
LeastSquares ==   \* normal equations
  (i = 0) => /\ Sum([k \in 1..Len(x) |-> y[k] * Det(x) - Inter(x, y) - Slope(x, y) * x[k]]) = 0
             /\ Sum([k \in 1..Len(x) |-> x[k] * (y[k] * Det(x) - Inter(x, y) - Slope(x, y) * x[k])]) = 0
Sound == (i = 0) => Rss(x, y) >= 0 /\ Pred(x, a) > Det(x)
=============================================================================
