-------------------------------- MODULE Pli --------------------------------
(* Reliability indices by perturbed laws, from one recorded Monte Carlo run.     *)
(* A drawn point is <<sign of (output - threshold), weight>>: weight / Unit is    *)
(* the likelihood ratio of the perturbed law at that point.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops, Kinds, Scales, Shapes, Laws, Unit, Weights, MaxN
VARIABLES cfg, run
vars == <<cfg, run>>
Signs == {-1, 0, 1}
Fails(op, s) == CASE op = "Less" -> s < 0 [] op = "LessOrEqual" -> s <= 0 [] op = "Greater" -> s > 0 [] OTHER -> s >= 0
Opposite(op) == CASE op = "Less" -> "GreaterOrEqual" [] op = "LessOrEqual" -> "Greater" [] op = "Greater" -> "LessOrEqual" [] OTHER -> "Less"
RECURSIVE Sum(_, _, _)
(* number of failures when w = 0, sum of their weights when w = 1 *)
Sum(r, op, w) == IF r = <<>> THEN 0
                 ELSE (IF Fails(op, r[1][1]) THEN (IF w = 1 THEN r[1][2] ELSE Unit) ELSE 0) + Sum(Tail(r), op, w)
P(r, op) == Sum(r, op, 0)                   \* Len(r) * Unit times the probability
Q(r, op) == Sum(r, op, 1)                   \* the same for the perturbed probability
(* the index <<numerator, denominator>> *)
Down(p, q) == q < p
Index(p, q) == IF Down(p, q) THEN <<q - p, q>> ELSE <<q - p, p>>
(* new parameter asked for: number of the candidate among <<delta, mean + delta * std, (delta * mean + std)^2>> *)
Asked(kind, scaled) == IF ~scaled THEN 1 ELSE IF kind = "mean" THEN 2 ELSE 3
Column(shape, j) == IF shape = "shared" THEN 1 ELSE j
Init == /\ cfg \in [op : Ops, kind : Kinds, scaled : Scales, shape : Shapes, laws : Laws] /\ run = <<>>
Draw(s, w) == /\ Len(run) < MaxN /\ run' = Append(run, <<s, w>>) /\ UNCHANGED cfg
Emit == /\ run = <<>> /\ PrintT("CASE " \o ToJson(cfg)) /\ FALSE /\ UNCHANGED vars
Next == Emit \/ (\E s \in Signs, w \in Weights : Draw(s, w))
Spec == Init /\ [][Next]_vars
p == P(run, cfg.op)
q == Q(run, cfg.op)
Defined == p > 0 /\ q > 0
Less(a, b) == a[1] * b[2] <= b[1] * a[2]    \* positive denominators
Neutral == (Defined /\ \A i \in 1..Len(run) : run[i][2] = Unit) => Index(p, q)[1] = 0
SignOfIndex == Defined => (Index(p, q)[1] > 0) = (q > p) /\ (Index(p, q)[1] < 0) = (q < p)
Antisymmetric == Defined => Index(q, p)[1] = -Index(p, q)[1] /\ Index(q, p)[2] = Index(p, q)[2]
Increasing == Defined => Less(Index(p, q), Index(p, q + 1))
Partition == P(run, cfg.op) + P(run, Opposite(cfg.op)) = Len(run) * Unit
             /\ \A i \in 1..Len(run) : Fails(cfg.op, run[i][1]) # Fails(Opposite(cfg.op), run[i][1])
(* a point that does not fail changes nothing but the number of points *)
OnlyFailures == [][run' # run => LET l == run'[Len(run')] IN
                     IF Fails(cfg.op, l[1]) THEN Q(run', cfg.op) = q + l[2] /\ P(run', cfg.op) = p + Unit
                     ELSE Q(run', cfg.op) = q /\ P(run', cfg.op) = p]_vars
=============================================================================
