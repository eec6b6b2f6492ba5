------------------------------- MODULE Censor -------------------------------
(* Censoring of a data set: observations are scanned in order and each one is   *)
(* appended to exactly one of three lists.  Signals are small integers; a       *)
(* threshold may be absent (NoThr).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Vals
NoThr == -1000
ClassOf(s, noise, sat) ==
    IF noise # NoThr /\ s <= noise THEN "noise"
    ELSE IF sat # NoThr /\ s >= sat THEN "sat" ELSE "unc"
(* declarative counterpart, used to judge recorded executions *)
Positions(sig, noise, sat, c) ==
    SelectSeq([i \in 1..Len(sig) |-> i], LAMBDA i : ClassOf(sig[i], noise, sat) = c)

VARIABLES sig, noise, sat, pos, unc, nse, st
vars == <<sig, noise, sat, pos, unc, nse, st>>
Init == /\ sig \in [1..N -> Vals]
        /\ noise \in Vals \cup {NoThr}
        /\ sat \in Vals \cup {NoThr}
        /\ noise = NoThr \/ sat = NoThr \/ noise < sat
        /\ pos = 0 /\ unc = <<>> /\ nse = <<>> /\ st = <<>>
Scan == /\ pos < N
        /\ pos' = pos + 1
        /\ LET c == ClassOf(sig[pos'], noise, sat)
           IN /\ unc' = IF c = "unc" THEN Append(unc, pos') ELSE unc
              /\ nse' = IF c = "noise" THEN Append(nse, pos') ELSE nse
              /\ st'  = IF c = "sat" THEN Append(st, pos') ELSE st
        /\ UNCHANGED <<sig, noise, sat>>
Emit == /\ pos = N
        /\ PrintT("CASE " \o ToJson([sig |-> sig, noise |-> noise, sat |-> sat]))
        /\ FALSE
        /\ UNCHANGED vars
Next == Scan \/ Emit
Spec == Init /\ [][Next]_vars

Range(s) == {s[i] : i \in 1..Len(s)}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Partition == /\ Range(unc) \cup Range(nse) \cup Range(st) = 1..pos
             /\ Len(unc) + Len(nse) + Len(st) = pos
Ordered == Increasing(unc) /\ Increasing(nse) /\ Increasing(st)
Strict == /\ \A i \in Range(unc) : (noise = NoThr \/ sig[i] > noise) /\ (sat = NoThr \/ sig[i] < sat)
          /\ \A i \in Range(nse) : sig[i] <= noise
          /\ \A i \in Range(st) : sig[i] >= sat
Declarative == pos = N => /\ unc = Positions(sig, noise, sat, "unc")
                          /\ nse = Positions(sig, noise, sat, "noise")
                          /\ st = Positions(sig, noise, sat, "sat")
(* without thresholds nothing is censored; raising the noise threshold never    *)
(* keeps more                                                                   *)
NoThreshold == (noise = NoThr /\ sat = NoThr) => nse = <<>> /\ st = <<>>
=============================================================================
