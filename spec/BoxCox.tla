------------------------------- MODULE BoxCox -------------------------------
(* The Box-Cox stage of a study: censor, shift, transform.  Signals and          *)
(* thresholds are integers; Far stands for an absent threshold.  The transform   *)
(* of z > 0 with parameter -1, 1, 2 is the exact fraction Num / Den.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, Size, Thresholds, Lambdas, Far
VARIABLES y, noise, sat, det, lam, pc, kept, shift, out
vars == <<y, noise, sat, det, lam, pc, kept, shift, out>>
Num(z, l) == CASE l = 1 -> z - 1 [] l = 2 -> z * z - 1 [] l = -1 -> z - 1
Den(z, l) == CASE l = 1 -> 1 [] l = 2 -> 2 [] l = -1 -> z
Less(a, b, l) == Num(a, l) * Den(b, l) < Num(b, l) * Den(a, l)       \* transformed a < transformed b
Keep(s, lo, hi) == {i \in DOMAIN s : (lo = Far \/ s[i] > lo) /\ (hi = Far \/ s[i] < hi)}
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
ShiftOf(s, K) == LET mn == MinOf({s[i] : i \in K}) IN IF mn < 0 THEN 100 - mn ELSE 0
Init == /\ y \in [1..Size -> Vals] /\ noise \in Thresholds \cup {Far} /\ sat \in Thresholds \cup {Far}
        /\ det \in Thresholds /\ lam \in Lambdas
        /\ pc = "raw" /\ kept = {} /\ shift = 0 /\ out = {}
Censor == /\ pc = "raw" /\ kept' = Keep(y, noise, sat) /\ kept' # {} /\ pc' = "kept"
          /\ UNCHANGED <<y, noise, sat, det, lam, shift, out>>
Shift == /\ pc = "kept" /\ shift' = ShiftOf(y, kept) /\ pc' = "shifted"
         /\ UNCHANGED <<y, noise, sat, det, lam, kept, out>>
Legal(v) == v + shift > 0
Transform == /\ pc = "shifted" /\ \A i \in kept : Legal(y[i])
             /\ Legal(det) /\ (noise = Far \/ Legal(noise)) /\ (sat = Far \/ Legal(sat))
             /\ out' = {<<i, Num(y[i] + shift, lam), Den(y[i] + shift, lam)>> : i \in kept} /\ pc' = "done"
             /\ UNCHANGED <<y, noise, sat, det, lam, kept, shift>>
Next == Censor \/ Shift \/ Transform
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Positive == Done => \A o \in out : o[3] > 0
OneSignalEach == Done => Cardinality(out) = Cardinality(kept)
ShiftOnlyWhenNegative == Done => (shift > 0) = (\E i \in kept : y[i] < 0)
(* the transform keeps every comparison with the thresholds, so that censoring   *)
(* and detecting mean the same on both scales                                     *)
SameSide == Done => \A i \in kept :
              /\ (y[i] > det) = Less(det + shift, y[i] + shift, lam)
              /\ noise # Far => Less(noise + shift, y[i] + shift, lam)
              /\ sat # Far => Less(y[i] + shift, sat + shift, lam)
=============================================================================
