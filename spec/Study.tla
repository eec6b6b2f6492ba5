------------------------------- MODULE Study -------------------------------
(* Life of studies: parameters are set (accepted or refused), studies are run   *)
(* and questioned, in any order, several objects side by side.                   *)
(*   cfg[o]  the parameters of object o, 0 being the value it was born with      *)
(*   res[o]  what the answers of o describe: the parameters and random state of  *)
(*           its last run, or nothing before the first one                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Params, NVal, NBad, NQuery, Seeds, MaxLen, Shape
(* NVal[p], NBad[p]: number of admissible and of inadmissible values of p        *)
(* Shape: sequence of the kinds of step allowed at each position (sets)          *)
VARIABLES cfg, res, hist
vars == <<cfg, res, hist>>
Default == [p \in Params |-> 0]
None == [ran |-> FALSE, cfg |-> Default, seed |-> 0]
Init == cfg = [o \in Objs |-> Default] /\ res = [o \in Objs |-> None] /\ hist = <<>>
May(k) == Len(hist) < MaxLen /\ k \in Shape[Len(hist) + 1]
Set(o, p, v) == /\ cfg' = [cfg EXCEPT ![o][p] = v]
                /\ hist' = Append(hist, [k |-> "set", o |-> o, p |-> p, v |-> v])
                /\ UNCHANGED res
Bad(o, p, v) == /\ hist' = Append(hist, [k |-> "bad", o |-> o, p |-> p, v |-> v])
                /\ UNCHANGED <<cfg, res>>
Run(o, s) == /\ res' = [res EXCEPT ![o] = [ran |-> TRUE, cfg |-> cfg[o], seed |-> s]]
             /\ hist' = Append(hist, [k |-> "run", o |-> o, p |-> "", v |-> s])
             /\ UNCHANGED cfg
Query(o, q) == /\ res[o].ran
               /\ hist' = Append(hist, [k |-> "query", o |-> o, p |-> "", v |-> q])
               /\ UNCHANGED <<cfg, res>>
Emit == Len(hist) = MaxLen /\ PrintT("CASE " \o ToJson([h |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == \/ \E o \in Objs :
             \/ May("set") /\ \E p \in Params : \E v \in 1..NVal[p] : Set(o, p, v)
             \/ May("bad") /\ \E p \in Params : \E v \in 1..NBad[p] : Bad(o, p, v)
             \/ May("run") /\ \E s \in Seeds : Run(o, s)
             \/ May("query") /\ \E q \in 1..NQuery : Query(o, q)
        \/ Emit
Spec == Init /\ [][Next]_vars

(* What is claimed, on the specification, for every history *)
RECURSIVE ValAt(_, _, _)
ValAt(o, p, n) == IF n = 0 THEN 0
                  ELSE IF hist[n].k = "set" /\ hist[n].o = o /\ hist[n].p = p THEN hist[n].v
                  ELSE ValAt(o, p, n - 1)
Runs(o) == {n \in 1..Len(hist) : hist[n].k = "run" /\ hist[n].o = o}
LastRun(o) == CHOOSE n \in Runs(o) : \A m \in Runs(o) : m <= n
Stored == \A o \in Objs : \A p \in Params : cfg[o][p] = ValAt(o, p, Len(hist))          \* C09
OnlyCurrent ==                                                                           \* C10, C11
  \A o \in Objs : IF Runs(o) = {} THEN res[o] = None
                  ELSE LET n == LastRun(o)
                       IN res[o] = [ran |-> TRUE, cfg |-> [p \in Params |-> ValAt(o, p, n)], seed |-> hist[n].v]
RefusedChangesNothing == [][\A o \in Objs : Len(hist') > Len(hist) /\ hist'[Len(hist')].k = "bad"
                                            => UNCHANGED <<cfg, res>>]_vars
QueryChangesNothing == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].k = "query"
                          => UNCHANGED <<cfg, res>>]_vars
AnswersMoveOnlyWithRuns == [][res' # res => hist'[Len(hist')].k = "run"]_vars
OthersUntouched == [][\A o \in Objs : Len(hist') > Len(hist) /\ hist'[Len(hist')].o # o
                                      => cfg'[o] = cfg[o] /\ res'[o] = res[o]]_vars
=============================================================================
