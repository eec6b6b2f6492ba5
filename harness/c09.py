"""C09 accepted parameters are stored, rejected ones change nothing."""
import life

FOCUS = ["accepted", "stored", "refused", "refused_changes_no_parameter", "refused_changes_no_answer",
         "born_with_defaults", "parameters_kept", "runs_keep_parameters"]
S, B, R, Q = "set", "bad", "run", "query"


def corrupt(tr):
    for e in tr[::-1]:
        if e["op"] == "bad":
            e["ok"] = True
            return tr


def run(ctx):
    n = ctx.pick(1, 8)
    pair = [[S, B], [S, B], [S, B]]                # every pair of parameter changes and a third one
    late = [[S], [R], [B, S], [B, S, Q]]           # after a run
    mixed = [[S], [B], [R], [S, B, Q], [B, S], [R], [B, S], [S], [B]]
    plans = {}
    w = {"binomial": 1, "gauss": 1, "kernel": 1, "qr": 2, "chaos": 5, "kriging": 4, "adaptive": 3, "hitmiss": 5, "sobol": 3,
         "plimean": 2, "plivariance": 1, "summary": 4}
    for k, v in w.items():
        plans[k] = [(1, (3,), pair[:2], None, {}, 60 * v * n), (1, (3,), late, 6 * v * n, {}), (2, (3,), mixed, 3 * v * n, {})]
    # thresholds, and sizes around the bounds of the kept data
    for k, v in {"chaos_edge": 2, "kriging_edge": 1, "adaptive_edge": 1, "hitmiss_edge": 1}.items():
        plans[k] = [(1, (3,), pair[:2], None, {}, 100 * n), (1, (3,), late, 5 * v * n, {})]
    life.explore(ctx, plans, FOCUS, ("chaos", corrupt))
