---------------------------- MODULE BoxCoxTrace ----------------------------
EXTENDS TraceBase
B == INSTANCE BoxCox WITH Vals <- {}, Size <- 0, Thresholds <- {}, Lambdas <- {}, Far <- -9999, y <- <<>>, noise <- 0, sat <- 0,
                          det <- 0, lam <- 1, pc <- "", kept <- {}, shift <- 0, out <- {}
Ratio(P, Q) == <<P \div Q, (((P % Q) * 1000000) \div Q) * 1000>>
T(v, s, l) == Ratio(B!Num(v + s, l), B!Den(v + s, l))
Verdict(e) ==
  CASE e.op = "input" ->   \* y, thresholds and what the reference study was given
       LET K == B!Keep(e.y, e.noise, e.sat)
           s == B!ShiftOf(e.y, K)
       IN Clause("reference_shift", e.shift = s) \cup
          Clause("reference_transform", e.exact =>
            /\ \A i \in K : Close(e.z[i], T(e.y[i], s, e.lam), 5000)
            /\ Close(e.tdet, T(e.det, s, e.lam), 5000)
            /\ e.noise # -9999 => Close(e.tnoise, T(e.noise, s, e.lam), 5000)
            /\ e.sat # -9999 => Close(e.tsat, T(e.sat, s, e.lam), 5000))
    [] e.op = "same" -> Clause("same_as_transformed_" \o e.kind, SeqSame(e.raw, e.ref, e.tol))
    [] e.op = "lambda" -> Clause("parameter_reported", Same(e.got, e.want, 0))
    [] e.op = "best" ->    \* log-likelihood at the estimated parameter and best on a grid
       Clause("parameter_maximizes_likelihood", LeTol(e.best, e.got, 20000000))
    [] e.op = "agree" -> Clause("same_estimate_everywhere", \A k \in 1..Len(e.lams) : Close(e.lams[k], e.lams[1], 1000))
    [] OTHER -> {"unknown_event"}
=============================================================================
