"""C11 between two runs the answers are those of the last run."""
import life

FOCUS = ["answers_of_last_run", "same_answer_until_next_run", "asking_changes_nothing", "stable_answer", "returned_curve_keeps_its_values",
         "refused_changes_no_answer", "other_objects_untouched"]
S, B, R, Q = "set", "bad", "run", "query"


def corrupt(tr):
    seen = False
    for e in tr:
        seen = seen or e["op"] == "run"
        if seen and e["op"] in ("set", "query"):
            e["ans"] = [v + 1 for v in e["ans"]]
            return tr


def run(ctx):
    life.ASK = True
    n = ctx.pick(1, 8)
    after = [[R], [S], [Q]]                        # every change, then every question
    pairs = [[R], [S, Q], [S, Q]]
    again = [[S], [R], [S], [Q, S], [R], [Q, S], [S, Q]]
    mixed = [[R], [S, Q], [S, Q, B], [S, Q], [R], [S, Q], [S, Q, R], [Q, S], [Q]]
    plans = {}
    w = {"binomial": 1, "gauss": 1, "kernel": 1, "qr": 1, "chaos": 4, "kriging": 3, "adaptive": 2, "hitmiss": 3, "sobol": 1}
    for k, v in w.items():
        plans[k] = [(1, (3,), after, None, {}), (1, (3,), pairs, None, {}, 15 * v * n), (1, (3, 5), again, 2 * v * n, {}, 6 * v * n),
                    (2, (3, 5), mixed, 2 * v * n, {}, 5 * v * n)]
    life.explore(ctx, plans, FOCUS, ("chaos", corrupt))
