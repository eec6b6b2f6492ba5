------------------------------ MODULE Progress ------------------------------
(* Progress reporting of a loop of n iterations: a report every `period`        *)
(* iterations and one after the last iteration.  The period is the documented   *)
(* n / flush, rounded either way at a tie.                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, Flushes, Bars
VARIABLES n, flush, bar, period, i, last, done
vars == <<n, flush, bar, period, i, last, done>>
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
NoReport == [k |-> 0, block |-> 0]
Init == /\ n \in 1..MaxN /\ flush \in Flushes /\ bar \in Bars
        /\ LET f == Min(flush, n) IN
           period \in {p \in 1..n : 2 * Abs(n - p * f) <= f}
        /\ i = 0 /\ last = NoReport /\ done = 0
Blocks(k) == {c \in 0..bar : 2 * Abs(c * n - bar * k) <= n}
Step == /\ i < n
        /\ i' = i + 1
        /\ IF i' % period = 0 \/ i' = n
           THEN /\ \E c \in Blocks(i') : last' = [k |-> i', block |-> c]
                /\ done' = IF i' = n THEN done + 1 ELSE done
           ELSE UNCHANGED <<last, done>>
        /\ UNCHANGED <<n, flush, bar, period>>
Emit == /\ i = 0
        /\ PrintT("CASE " \o ToJson([n |-> n, f |-> flush, b |-> bar]))
        /\ FALSE /\ UNCHANGED vars
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
EndsOnce == (i = n) => (done = 1 /\ last.k = n /\ last.block = bar)
NotBefore == (i < n) => done = 0
Monotone == [][last'.k >= last.k /\ last'.block >= last.block]_vars
=============================================================================
