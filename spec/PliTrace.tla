------------------------------ MODULE PliTrace ------------------------------
(* Recorded studies on a Monte Carlo result.  Sums over the points below, at and  *)
(* above the threshold are given separately: which of them fail is decided here.  *)
EXTENDS TraceBase
C == INSTANCE Pli WITH Ops <- {}, Kinds <- {}, Scales <- {}, Shapes <- {}, Laws <- {}, Unit <- 1, Weights <- {}, MaxN <- 0, cfg <- <<>>, run <- <<>>
(* addition of recorded numbers *)
Add(a, b) == LET l == a[2] + b[2] - Nano IN IF l >= 0 THEN <<a[1] + b[1] + 1, l>> ELSE <<a[1] + b[1], l + Nano>>
Over(op, v) == LET t == [i \in 1..3 |-> IF C!Fails(op, i - 2) THEN v[i] ELSE Zero] IN Add(Add(t[1], t[2]), t[3])
OneIndex(e, x) ==
  LET p == Over(e.op_, e.p)
      q == Over(e.op_, x.q)
      tie == Close(p, q, x.tol)
      asked == x.asked[C!Asked(e.kind, e.scaled)]
  IN Clause("new_parameter", Close(x.delta, asked, 1000))
     \cup Clause("perturbed_probability_" \o x.law, Close(x.got, q, x.tol))
     \cup Clause("index_" \o x.law,
            \/ Close(x.index, IF Lt(q, p) THEN x.down ELSE x.up, x.itol)
            \/ (tie /\ (Close(x.index, x.down, x.itol) \/ Close(x.index, x.up, x.itol))))
     \cup Clause("sign_of_the_index", tie \/ Lt(Zero, x.index) = Lt(p, q))
     \cup Clause("neutral_perturbation", ~x.neutral \/ (Close(x.index, Zero, 10) /\ Close(x.got, p, 10)))
     \cup Clause("interval_centred", \A i \in 1..Len(x.lo) : Close(x.lo[i], x.half[i], x.htol) /\ Close(x.hi[i], x.half[i], x.htol))
     \cup Clause("interval_nested", NonDecreasing(x.lo, 2) /\ NonDecreasing(x.hi, 2) /\ \A i \in 1..Len(x.lo) : Le(Zero, x.lo[i]) /\ Le(Zero, x.hi[i]))
Verdict(e) ==
  CASE e.op = "refused" -> Clause("refused_" \o e.what, ~e.ok)
    [] e.op = "accepted" -> Clause("accepted_" \o e.what, e.ok)
    [] e.op = "study" -> UNION {OneIndex(e, e.x[i]) : i \in 1..Len(e.x)}
                         \cup Clause("probability", Close(e.pf, Over(e.op_, e.p), 2))
                         \cup Clause("one_index_per_delta_and_input", e.shape_)
    (* law: mass, parameter asked for, distance to the nearest law of that kind, mass outside the support *)
    [] e.op = "law" -> Clause("perturbed_law_mass_" \o e.law, Close(e.mass, One, e.tol))
                       \cup Clause("perturbed_law_parameter_" \o e.law, Close(e.par, e.want, e.tol))
                       \cup Clause("perturbed_law_" \o e.law, SeqClose(e.pdf, e.ref, e.tol))
                       \cup Clause("original_law", SeqClose(e.orig, e.oref, 2000))
    [] e.op = "same" -> Clause("same_" \o e.what, SeqSame(e.a, e.b, e.tol))
    [] e.op = "drawn" -> Clause("drawn_abscissas", IF e.hell = <<>> THEN SeqClose(e.x, e.wx, 100)
                                                  ELSE \E k \in 1..Len(e.hell) : SeqClose(e.x, e.hell[k], e.tol))
                         \cup Clause("drawn_indices", SeqClose(e.y, e.wy, 100))
                         \cup Clause("drawn_intervals", SeqClose(e.band, e.wband, 100))
                         \cup Clause("drawn_labels", e.labels)
    [] OTHER -> {"unknown_event"}
=============================================================================
