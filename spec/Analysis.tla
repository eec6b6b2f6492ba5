------------------------------ MODULE Analysis ------------------------------
(* The linear analysis: what is computed once is what every accessor, the table  *)
(* and the file show.  A value is identified by <<quantity, fit>>; fit is "u"    *)
(* (kept data taken alone) or "c" (censored maximum likelihood).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Designs, Vals      \* integer data, judged exactly
Tests == {"Kolmogorov", "AndersonDarling", "CramerVonMises", "ZeroMean", "BreuschPagan", "HarrisonMcCabe", "DurbinWatson"}
Coefs == {"Intercept", "Slope", "StandardError", "R2"}
(* the order of the rows of the two tables; "Law" shows one row per fit *)
Regression == <<"BoxCox", "Intercept", "Slope", "StandardError", "IntervalIntercept", "IntervalSlope", "Level", "R2">>
LawRows(cens) == IF cens THEN <<"LawUncensored", "LawCensored">> ELSE <<"LawUncensored">>
Residuals(cens) == LawRows(cens) \o <<"Kolmogorov", "AndersonDarling", "CramerVonMises", "ZeroMean", "BreuschPagan", "HarrisonMcCabe", "DurbinWatson">>
RowsOf(cens) == Regression \o Residuals(cens)
(* rows with one value per fit *)
Both(r) == r \in Tests \cup Coefs
Fits(cens) == IF cens THEN {"u", "c"} ELSE {"u"}
(* warnings: bad = some test value (R2 included) is under 0.05 *)
Warnings(bad, box, normal) == (IF bad THEN {IF box THEN "quantile_regression" ELSE "box_cox"} ELSE {})
                              \cup (IF normal THEN {} ELSE {"normal_assumed"})

L == INSTANCE LinearPOD WITH Designs <- {}, Vals <- {}, Dets <- {}, Sizes <- {}, x <- <<>>, y <- <<>>, d <- 0, a <- 0, i <- 0, hits <- 0
Det(x) == L!Det(x)
Inter(x, y) == L!Inter(x, y)
Slope(x, y) == L!Slope(x, y)
Rss(x, y) == L!Rss(x, y)                                                \* n Det times the residual sum of squares
Tss(y) == Len(y) * L!Sxx(y) - L!Sum(y) * L!Sum(y)                       \* n times the total sum of squares
ResidualAt(x, y, k) == y[k] * Det(x) - Inter(x, y) - Slope(x, y) * x[k]  \* Det times

VARIABLES cens, box, law, failing, shown, data
vars == <<cens, box, law, failing, shown, data>>
(* what is shown so far: a set of <<where, row, column>> *)
Init == /\ cens \in BOOLEAN /\ box \in {"none", "given", "estimated"} /\ law \in {"normal", "other"}
        /\ failing \in {{}, {"u"}, {"c"}, {"u", "c"}} /\ failing \subseteq Fits(cens)
        /\ shown = {} /\ data = <<>>
Columns(r) == IF Both(r) THEN Fits(cens) ELSE {"u"}
Where == {"table", "file", "accessor"}
Show(w) == /\ ~\E s \in shown : s[1] = w
           /\ shown' = shown \cup {<<w, r, f>> : r \in {RowsOf(cens)[k] : k \in 1..Len(RowsOf(cens))}, f \in Fits(cens)}
           /\ UNCHANGED <<cens, box, law, failing, data>>
Warned == Warnings(failing # {}, box # "none", law = "normal")
EmitConfig == /\ shown = {} /\ PrintT("CASE " \o ToJson([kind |-> "config", cens |-> cens, box |-> box, law |-> law])) /\ FALSE /\ UNCHANGED vars
EmitData == /\ shown = {} /\ ~cens /\ box = "none" /\ law = "normal" /\ failing = {}
            /\ \E x \in Designs : \E y \in [1..Len(x) -> Vals] :
                 /\ Rss(x, y) > 0 /\ Tss(y) > 0
                 /\ PrintT("CASE " \o ToJson([kind |-> "data", x |-> x, y |-> y])) /\ FALSE
            /\ UNCHANGED vars
Next == EmitConfig \/ EmitData \/ \E w \in Where : Show(w)
Spec == Init /\ [][Next]_vars
OneAdvice == Cardinality(Warned \cap {"box_cox", "quantile_regression"}) = (IF failing = {} THEN 0 ELSE 1)
NoCensoredColumn == ~cens => ~\E s \in shown : s[3] = "c"
SameEverywhere == \A w, v \in Where : (\E s \in shown : s[1] = w) /\ (\E s \in shown : s[1] = v) =>
                      {<<s[2], s[3]>> : s \in {t \in shown : t[1] = w}} = {<<s[2], s[3]>> : s \in {t \in shown : t[1] = v}}
=============================================================================
