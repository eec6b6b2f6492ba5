------------------------------- MODULE Exceed -------------------------------
(* POD of a linear metamodel c0 + c1 a + c2 x whose second input x has a finite  *)
(* law: Atoms with Weights (tenths).  The threshold is half of an odd number, so  *)
(* that no tie is possible.  Atoms are scanned one by one.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Atoms, Weights, C0s, C1s, C2s, Det2s
VARIABLES c0, c1, c2, det2, k, j, mass
vars == <<c0, c1, c2, det2, k, j, mass>>
Over(b0, b1, b2, d2, a, x) == 2 * (b0 + b1 * a + b2 * x) > d2
RECURSIVE MassTo(_, _, _, _, _, _, _, _)
MassTo(b0, b1, b2, d2, a, at, w, n) ==
  IF n = 0 THEN 0 ELSE (IF Over(b0, b1, b2, d2, a, at[n]) THEN w[n] ELSE 0) + MassTo(b0, b1, b2, d2, a, at, w, n - 1)
Mass(b0, b1, b2, d2, a, at, w) == MassTo(b0, b1, b2, d2, a, at, w, Len(at))
Init == /\ c0 \in C0s /\ c1 \in C1s /\ c2 \in C2s /\ det2 \in Det2s
        /\ k \in 1..Len(Sizes) /\ j = 0 /\ mass = 0
Scan == /\ j < Len(Atoms) /\ j' = j + 1
        /\ mass' = IF Over(c0, c1, c2, det2, Sizes[k], Atoms[j']) THEN mass + Weights[j'] ELSE mass
        /\ UNCHANGED <<c0, c1, c2, det2, k>>
Curve == [i \in 1..Len(Sizes) |-> Mass(c0, c1, c2, det2, Sizes[i], Atoms, Weights)]
Emit == /\ k = 1 /\ j = 0
        /\ PrintT("CASE " \o ToJson([c |-> <<c0, c1, c2>>, det2 |-> det2, pod |-> Curve]))
        /\ FALSE /\ UNCHANGED vars
Next == Scan \/ Emit
Spec == Init /\ [][Next]_vars
Whole == MassTo(9, 0, 0, 1, 0, Atoms, Weights, Len(Atoms)) = 10
Bounded == 0 <= mass /\ mass <= 10
Counted == j = Len(Atoms) => mass = Curve[k]
Rises == c1 >= 0 => \A i \in 1..(Len(Sizes) - 1) : Curve[i] <= Curve[i + 1]
Falls == Mass(c0, c1, c2, det2 + 2, Sizes[k], Atoms, Weights) <= Curve[k]
Complement == Mass(-c0, -c1, -c2, -det2, Sizes[k], Atoms, Weights) = 10 - Curve[k]
=============================================================================
