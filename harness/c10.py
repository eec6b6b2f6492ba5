"""C10 a run depends only on the data and the current parameters."""
import life

FOCUS = ["like_a_new_object", "run_succeeds", "other_objects_untouched"]
S, B, R, Q = "set", "bad", "run", "query"


def corrupt(tr):
    for e in tr[::-1]:
        if e["op"] == "run":
            e["ans"] = [v + 1 for v in e["ans"]]
            return tr


def run(ctx):
    n = ctx.pick(1, 8)
    one = [[S, R], [R], [S], [R]]            # (set or run), run, set, run
    mixed = [[S], [S, B, R], [R], [S, B, Q], [S, R], [R], [Q, B, S], [S], [R], [R]]
    plans = {}
    for k in ("binomial", "gauss", "kernel"):
        plans[k] = [(1, (3,), one, None, {}), (2, (3, 4), mixed, 6 * n, {})]
    plans["qr"] = [(1, (3,), one, None, {}, 20 * n), (2, (3, 4), mixed, 8 * n, {})]
    plans["chaos"] = [(1, (3,), one, None, {}, 60 * n), (2, (3, 4), mixed, 24 * n, {})]
    plans["kriging"] = [(1, (3,), one, None, {}, 60 * n), (2, (3, 4), mixed, 24 * n, {})]
    plans["hitmiss"] = [(1, (3,), one, None, {}, 50 * n), (2, (3, 4), mixed, 20 * n, {})]
    plans["sobol"] = [(1, (3,), one, None, {}, 30 * n), (2, (3, 4), mixed, 10 * n, {})]
    plans["plimean"] = [(1, (3,), one, None, {}, 12 * n), (2, (3, 4), mixed, 5 * n, {})]
    plans["plivariance"] = [(1, (3,), one, None, {}, 6 * n), (2, (3, 4), mixed, 3 * n, {})]
    life.explore(ctx, plans, FOCUS, ("chaos", corrupt))
