---------------------------- MODULE SummaryTrace ----------------------------
(* Recorded summaries against Summary.  Every event carries what the six         *)
(* accessors answer after the step: e.got[m] = number of the run the study comes  *)
(* from (read from its simulation size), -1 if it cannot be told, 0 if refused.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Num
Trace == ndJsonDeserialize("trace.ndjson")
Methods == {"LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "QuantileRegression", "PolynomialChaos", "Kriging"}
Linear == {"LinearGauss", "LinearBinomial", "LinearKernelSmoothing"}
VARIABLES at_, on, res, runs, multi
vars == <<at_, on, res, runs, multi>>
S == INSTANCE Summary WITH Multi <- FALSE, Starts <- {}, MaxLen <- 0, hist <- <<>>, first <- {}
Refused == S!RefusedIn(on, res, runs, multi)
Rows == S!RowsIn(on, res, runs, multi)
Clause(name, ok) == IF ok THEN {} ELSE {name}
Set(s) == {s[i] : i \in 1..Len(s)}
Init == at_ = 1 /\ on = {} /\ res = [m \in Methods |-> 0] /\ runs = 0 /\ multi = FALSE
On(e) == CASE e.op = "start" -> Set(e.on)
           [] e.op = "toggle" -> IF e.m \in on THEN on \ {e.m} ELSE on \cup {e.m}
           [] OTHER -> on
Res(e) == CASE e.op = "start" -> [m \in Methods |-> 0]
            [] e.op = "run" -> [m \in Methods |-> IF m \in on /\ S!AppliesTo(m, multi) THEN runs + 1 ELSE 0]
            [] OTHER -> res
(* what the accessors may answer in the next state *)
Answers(e, o, r, mu) == \A m \in Methods :
   LET a == IF m \notin o \/ (m = "Kriging" /\ ~mu) THEN 0 ELSE r[m]
   IN e.got[m] = a \/ (e.got[m] = -1 /\ a # 0)
(* table: e.pods[i] = [m, a, c, wa, wc]: the printed detection sizes and those of the study (minus one where it refuses) *)
Row(r) == Close(r.a, r.wa, 5100000) /\ Close(r.c, r.wc, 5100000)
Valid(v) == Same(v.r2, v.wr2, 5100000) /\ Same(v.q2, v.wq2, 5100000) /\ Same(v.c2, v.wc2, 5100000)
Names(s) == [i \in 1..Len(s) |-> s[i].m]
Once(s) == Len(s) = Cardinality(Set(s))
(* the linear methods share one line of validation *)
ValidRows == (Rows \ Linear) \cup (IF Rows \cap Linear # {} THEN {"Linear"} ELSE {})
Shown(e, what) ==
  IF Refused THEN Clause(what \o "_refused_before_run", ~e.ok)
  ELSE Clause(what \o "_answers", e.ok)
       \cup (IF ~e.ok THEN {} ELSE
             Clause(what \o "_one_row_per_active_method", Set(Names(e.pods)) = Rows /\ Once(Names(e.pods)))
        \cup Clause(what \o "_detection_sizes", \A i \in 1..Len(e.pods) : Row(e.pods[i]))
        \cup Clause(what \o "_one_validation_per_active_method", Set(Names(e.valid)) = ValidRows /\ Once(Names(e.valid)))
        \cup Clause(what \o "_validation_values", \A i \in 1..Len(e.valid) : Valid(e.valid[i]))
        \cup Clause(what \o "_level_labels", e.head = e.label))
(* graphs: e.files names without extension; e.drawable: methods whose own drawPOD accepts the levels *)
Base == {"Linear_model", "Residuals", "Residuals_distribution", "Residuals_QQ_plot"}
Cens == {"Linear_model_censored", "Residuals_censored", "Residuals_distribution_censored", "Residuals_QQ_plot_censored"}
PodFile(m) == CASE m = "LinearGauss" -> "POD_Gauss" [] m = "LinearBinomial" -> "POD_Binomial" [] m = "LinearKernelSmoothing" -> "POD_Kernel_Smoothing"
                [] m = "QuantileRegression" -> "POD_Quantile_Regression" [] m = "PolynomialChaos" -> "POD_Polynomial_chaos" [] OTHER -> "POD_Kriging"
Extra(e, m) == CASE m = "QuantileRegression" -> IF e.level THEN {"Quantile_regression_model"} ELSE {}
                 [] m = "PolynomialChaos" -> {"Validation_graph_Polynomial_chaos"}
                 [] m = "Kriging" -> {"Validation_graph_Kriging"}
                 [] OTHER -> {}
Files(e) == Base \cup (IF e.cens THEN Cens ELSE {}) \cup (IF e.box THEN {"BoxCox_likelihood"} ELSE {})
            \cup {PodFile(m) : m \in Rows \cap Set(e.drawable)} \cup UNION {Extra(e, m) : m \in Rows}
Judge(e) ==
  IF e.op = "crash" THEN {"unexpected_failure"}
  ELSE IF e.op = "alone" THEN Clause("same_as_the_study_on_its_own_" \o e.m, Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Same(e.a[i], e.b[i], e.tol[i]))
  ELSE IF e.op = "settings" THEN Clause("simulation_settings_passed_on_" \o e.m, e.ok)
  ELSE (CASE e.op = "table" -> Shown(e, "table")
          [] e.op = "save" -> Shown(e, "file")
          [] e.op = "draw" -> IF Refused THEN Clause("graphs_refused_before_run", ~e.ok)
                              ELSE Clause("graphs_answer", e.ok)
                                   \cup (IF e.ok THEN Clause("one_graph_per_entry", Set(e.files) = Files(e) /\ e.n = Cardinality(Files(e))) ELSE {})
          [] OTHER -> Clause("step_succeeds", e.ok))
       \cup Clause("accessors_answer_for_active_methods_run", Answers(e, On(e), Res(e), IF e.op = "start" THEN e.multi ELSE multi))
Next == /\ at_ <= Len(Trace)
        /\ LET e == Trace[at_]
               b == Judge(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> at_, clauses |-> b]))
              /\ IF e.op \in {"crash", "alone", "settings"} THEN UNCHANGED <<on, res, runs, multi>>
                 ELSE /\ on' = On(e) /\ res' = Res(e)
                      /\ multi' = IF e.op = "start" THEN e.multi ELSE multi
                      /\ runs' = IF e.op = "start" THEN 0 ELSE IF e.op = "run" THEN runs + 1 ELSE runs
        /\ at_' = at_ + 1
        /\ IF at_ < Len(Trace) THEN TRUE ELSE PrintT("TRACEDONE " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_vars
=============================================================================
