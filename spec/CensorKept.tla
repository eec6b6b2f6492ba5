----------------------------- MODULE CensorKept -----------------------------
(* Evaluates the censoring rule of Censor on given data sets.                   *)
EXTENDS Integers, Sequences, TLC, Json
C == INSTANCE Censor WITH N <- 0, Vals <- {}, sig <- <<>>, noise <- 0, sat <- 0, pos <- 0,
                          unc <- <<>>, nse <- <<>>, st <- <<>>
Reqs == ndJsonDeserialize("reqs.ndjson")
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Reqs)
        /\ LET r == Reqs[l] IN
           PrintT("CASE " \o ToJson([id |-> r.id, kept |-> C!Positions(r.sig, r.noise, r.sat, "unc")]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
