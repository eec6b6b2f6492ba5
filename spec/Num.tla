-------------------------------- MODULE Num --------------------------------
(* Numbers as the traces carry them: <<hi, lo>> stands for hi + lo * 10^-9,     *)
(* 0 <= lo < 10^9 (TLC integers have 32 bits).  <<-2000000000, 0>> is NaN.      *)
EXTENDS Integers, Sequences
Nano == 1000000000
NaN == <<-2000000000, 0>>
IsNum(a) == a[1] # -2000000000
Zero == <<0, 0>>
One == <<1, 0>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
(* a <= b + tol, tol in 10^-9 units, tol < 10^9 *)
LeTol(a, b, tol) == \/ Le(a, b)
                    \/ a[1] = b[1] /\ a[2] - b[2] <= tol
                    \/ a[1] = b[1] + 1 /\ (Nano + a[2]) - b[2] <= tol
Close(a, b, tol) == IsNum(a) /\ IsNum(b) /\ LeTol(a, b, tol) /\ LeTol(b, a, tol)
(* close, or both not a number *)
Same(a, b, tol) == (~IsNum(a) /\ ~IsNum(b)) \/ Close(a, b, tol)
InUnit(a) == IsNum(a) /\ Le(Zero, a) /\ Le(a, One)
InUnitTol(a, tol) == IsNum(a) /\ LeTol(Zero, a, tol) /\ LeTol(a, One, tol)
SeqClose(s, r, tol) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : Close(s[i], r[i], tol)
SeqSame(s, r, tol) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : Same(s[i], r[i], tol)
NonIncreasing(s, tol) == \A i \in 1..(Len(s) - 1) : LeTol(s[i + 1], s[i], tol)
NonDecreasing(s, tol) == \A i \in 1..(Len(s) - 1) : LeTol(s[i], s[i + 1], tol)
=============================================================================
