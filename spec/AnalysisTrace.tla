---------------------------- MODULE AnalysisTrace ----------------------------
EXTENDS TraceBase
A == INSTANCE Analysis WITH Designs <- {}, Vals <- {}, cens <- FALSE, box <- "none", law <- "normal", failing <- {}, shown <- {}, data <- <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
(* numbers of the study multiplied by the integers that make them whole *)
Whole(v, w) == Close(v, <<w, 0>>, 200000)
Ints(e) ==
   Clause("intercept_is_least_squares", Whole(e.b0, A!Inter(e.x, e.y)))
   \cup Clause("slope_is_least_squares", Whole(e.b1, A!Slope(e.x, e.y)))
   \cup Clause("standard_error_is_least_squares", Whole(e.s2, A!Rss(e.x, e.y)))            \* s^2 n (n-2) Det
   \cup Clause("r2_is_least_squares", Whole(e.r2, A!Det(e.x) * A!Tss(e.y) - A!Rss(e.x, e.y)))
   \cup Clause("residuals_are_least_squares", Len(e.res) = Len(e.y) /\ \A k \in 1..Len(e.y) : Whole(e.res[k], A!ResidualAt(e.x, e.y, k)))
(* e.vals: [k quantity, f fit, got, ref, tol] *)
Values(e) ==
   UNION {Clause("value_" \o e.vals[i].k, Close(e.vals[i].got, e.vals[i].ref, e.vals[i].tol)) : i \in 1..Len(e.vals)}
   \cup Clause("one_value_per_fit", Set([i \in 1..Len(e.vals) |-> <<e.vals[i].k, e.vals[i].f>>])
                                       = (A!Tests \cup A!Coefs) \X A!Fits(e.cens))
   \cup Clause("p_values_are_probabilities", \A i \in 1..Len(e.vals) : e.vals[i].k \in A!Tests => InUnitTol(e.vals[i].got, 10))
   \cup Clause("descriptions_name_the_fit", e.named)
   \cup Clause("residuals", \A c \in 1..Len(e.res) : SeqClose(e.res[c], e.rref[c], e.rtol[c]))
   \cup Clause("residual_law", \A c \in 1..Len(e.law) : SeqClose(e.law[c], e.lref[c], e.rtol[c]))
   \cup Clause("keeps_the_samples", e.kept)
(* e.cells: [k row, u, c text as numbers (NaN: empty)], e.want: the accessors *)
Keys(s) == [i \in 1..Len(s) |-> s[i].k]
Shown(e) ==
   Clause(e.w \o "_rows_in_order", Keys(e.cells) = A!RowsOf(e.cens))
   \cup Clause(e.w \o "_header", e.head = (IF e.cens THEN "Uncensored Censored" ELSE "Uncensored"))
   \cup UNION {LET c == e.cells[i]
                   w == e.want[c.k]
               IN Clause(e.w \o "_cell_" \o c.k, Len(c.u) = Len(w.u) /\ Len(c.c) = Len(w.c)
                          /\ (\A j \in 1..Len(c.u) : Same(c.u[j], w.u[j], 5000100)) /\ (\A j \in 1..Len(c.c) : Same(c.c[j], w.c[j], 5000100)))
               : i \in {j \in 1..Len(e.cells) : e.cells[j].k \in DOMAIN e.want}}
   \cup Clause(e.w \o "_law_text", e.laws = e.wlaws)
Warn(e) == Clause(e.w \o "_warnings", Set(e.got) = A!Warnings(\E i \in 1..Len(e.p) : Lt(e.p[i], <<0, 50000000>>), e.box, e.normal)
                                       /\ Len(e.got) = Cardinality(Set(e.got)))
Verdict(e) == CASE e.op = "ints" -> Ints(e)
                [] e.op = "values" -> Values(e)
                [] e.op = "shown" -> Shown(e)
                [] e.op = "warn" -> Warn(e)
                [] e.op = "same" -> Clause(e.what, SeqClose(e.a, e.b, e.tol))
                [] OTHER -> {"unknown_event"}
=============================================================================
