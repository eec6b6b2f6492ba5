---------------------------- MODULE CensorTrace ----------------------------
(* Judges recorded censoring operations and studies with thresholds.            *)
EXTENDS TraceBase
C == INSTANCE Censor WITH N <- 0, Vals <- {}, sig <- <<>>, noise <- 0, sat <- 0, pos <- 0,
                          unc <- <<>>, nse <- <<>>, st <- <<>>
Verdict(e) ==
  CASE e.op = "filter" ->
         LET U == C!Positions(e.sig, e.noise, e.sat, "unc")
             B == C!Positions(e.sig, e.noise, e.sat, "noise")
             S == C!Positions(e.sig, e.noise, e.sat, "sat")
         IN Clause("uncensored_points", e.unc = U)
            \cup Clause("noise_points", e.nse = B)
            \cup Clause("saturated_points", e.st = S)
            \cup Clause("pairing", e.usig = [i \in 1..Len(e.unc) |-> e.sig[e.unc[i]]])
            \cup Clause("columns", e.cols)
    [] e.op = "study" ->      \* study with thresholds (got) and study of the kept points (ref)
         Clause("kept", C!Positions(e.sig, e.noise, e.sat, "unc") = e.kept)
         \cup Clause("same_failure", e.gotok = e.refok)
         \cup Clause("same_answers", SeqSame(e.got, e.ref, 20000))
    [] e.op = "doe" ->        \* design of experiments of an adaptive study before enrichment
         Clause("kept", C!Positions(e.sig, e.noise, e.sat, "unc") = e.doe)
         \cup Clause("pairing", e.usig = [i \in 1..Len(e.doe) |-> e.sig[e.doe[i]]])
    [] e.op = "moved" ->      \* linear study: moving a censored signal inside its class
         Clause("class_kept", C!ClassOf(e.sig[e.k], e.noise, e.sat) # "unc"
                              /\ C!ClassOf(e.sig[e.k], e.noise, e.sat) = C!ClassOf(e.newv, e.noise, e.sat))
         \cup Clause("censored_value_unused", SeqSame(e.got, e.ref, 20000))
    [] e.op = "used" ->       \* linear study: the censored points do enter the likelihood
         Clause("censored_points_used", ~SeqSame(e.got, e.ref, 20000))
    [] OTHER -> {"unknown_event"}
=============================================================================
