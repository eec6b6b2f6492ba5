---------------------------- MODULE ExceedTrace ----------------------------
EXTENDS TraceBase
X == INSTANCE Exceed WITH Sizes <- <<>>, Atoms <- <<>>, Weights <- <<>>, C0s <- {}, C1s <- {}, C2s <- {}, Det2s <- {},
                          c0 <- 0, c1 <- 0, c2 <- 0, det2 <- 0, k <- 0, j <- 0, mass <- 0
Twice(a) == IF a[2] >= 500000000 THEN <<2 * a[1] + 1, 2 * a[2] - Nano>> ELSE <<2 * a[1], 2 * a[2]>>
Plus(a, b) == IF a[2] + b[2] >= Nano THEN <<a[1] + b[1] + 1, a[2] + b[2] - Nano>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Tenths(m) == IF m = 10 THEN One ELSE <<0, m * 100000000>>
Verdict(e) ==
  CASE e.op = "freq" ->     \* tols[m + 1]: tolerance on a frequency of probability m tenths
       Clause("exceedance_frequency_" \o e.kind,
              \A i \in 1..Len(e.sizes) :
                LET m == X!Mass(e.c[1], e.c[2], e.c[3], e.det2, e.sizes[i], e.atoms, e.weights)
                IN Close(e.got[i], Tenths(m), e.tols[m + 1]))
    [] e.op = "ref" ->      \* values against references, each with its own tolerance
       Clause(e.what \o "_" \o e.kind, /\ Len(e.got) = Len(e.ref)
                                       /\ \A i \in 1..Len(e.ref) : Close(e.got[i], e.ref[i], e.tol[i]))
    [] e.op = "mid" -> Clause("linear_between_sizes", Close(Twice(e.f[2]), Plus(e.f[1], e.f[3]), 20))
    [] e.op = "rank" -> Clause("confidence_is_quantile_of_simulations_" \o e.kind, Close(e.rank, e.want, e.tol))
    [] e.op = "used" -> Clause("given_" \o e.what \o "_is_used", e.ok)
    [] e.op = "differ" -> Clause("given_" \o e.what \o "_matters", ~SeqClose(e.a, e.b, e.tol))
    [] OTHER -> {"unknown_event"}
=============================================================================
