"""C14 adaptive hit/miss study: the design is enriched as announced."""
import enrich
from c13 import histories, plan, rejects

BASE = dict(kind="hitmiss", dim=2, s=0, n=24, det=20.0, more=2, cand=80, sampling=400, box=False, cens=False, law="", how="raise", sobol=False, final=True,
            withdet=True, cls="rf", trees=12, window=None)
VARIANTS = [dict(), dict(withdet=False), dict(cens=True), dict(law="user"), dict(law="tied", dim=3, n=30), dict(dim=3, n=30, withdet=False), dict(law="wide", sobol=True, n=16, cand=30),
            dict(how="shape"), dict(window=(0.2, 0.9)), dict(window=(0.5, 0.5), withdet=False), dict(cls="svc", n=36), dict(trees=1, cand=40), dict(window=(0.0, 1.0), cand=30),
            dict(det=12.0, n=30), dict(det=30.0, n=30, how="text")]


def run(ctx):
    pick = ctx.pick
    hs = histories(ctx, 5, (0, 1, 2, 4, 7), 2)
    h3 = histories(ctx, 3, (1, 3), 3)
    cases = plan(ctx, hs, VARIANTS, BASE, {0: 8, 1: pick(75, 400), 2: pick(75, 600), 4: pick(90, 600), 7: pick(90, 600)})
    cases += plan(ctx, h3, VARIANTS, BASE, {1: pick(60, 600), 3: pick(90, 1200)})
    evs = ctx.replay(enrich.play, cases, limit=pick(200, 400))
    ws = [(0.45, 0.52), (0.3, 0.7), (0.0, 0.2), (0.8, 1.0), (0.1, 0.3), (0.6, 0.9)]
    evs += ctx.replay(enrich.do_window, [dict(s=i, dim=2 + i % 2, cand=(60, 25, 200)[i % 3], window=ws[i % 6], trees=(10, 25, 40)[i % 3]) for i in range(pick(40, 300))], limit=300)
    bs = ctx.replay(enrich.do_batches, [dict(s=i, dim=2 + i % 2, n=20 + i % 9, more=(6, 3, 11, 14)[i % 4], cand=(60, 150, 300)[i % 3], window=ws[(i // 2) % 6], trees=(10, 25, 7)[i % 3],
                                            flip=(0, 0.1, 0.25)[(i // 3) % 3]) for i in range(pick(60, 600))], limit=300)
    ctx.extra["improvements_with_candidates_in_the_window"] = sum(1 for t in bs for e in t if e["op"] == "batch" and 0 not in e["chosen"]
                                                                  and all(e["lo"] <= e["probs"][k - 1] <= e["hi"] for k in e["chosen"]))
    ctx.extra["aggregated_classifiers_recomputed"] = sum(1 for t in bs for e in t if e.get("what", "").startswith("classifier_of"))
    evs += bs
    ctx.extra["histories"] = len(cases)
    ctx.extra["failing_runs"] = sum(1 for t in evs for e in t if e["op"] == "run" and not e["ok"])
    ctx.extra["successful_runs"] = sum(1 for t in evs for e in t if e["op"] == "run" and e["ok"])
    ctx.sample({"config": cases[0][0], "history": cases[0][1]})
    ctx.validate("EnrichTrace", evs, broken=False)
    rejects(ctx, evs)
    ctx.assumptions += ["the law of the inputs is continuous; both outcomes are present in the given design"]
    return ctx.finish()
