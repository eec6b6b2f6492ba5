"""C13 adaptive signal study: the design is enriched as announced."""
import copy

import enrich

BASE = dict(kind="adaptive", dim=2, s=0, n=14, det=20.0, more=2, cand=5, sampling=20, sim=5, start=0, box=False, cens=False, law="", how="raise", sobol=False, down=0.0, final=True)
VARIANTS = [dict(), dict(box=True), dict(cens=True, n=18), dict(law="user"), dict(law="tied", dim=3, n=18), dict(dim=3, n=18), dict(law="wide", sobol=True, n=10),
            dict(how="shape"), dict(how="text", start=3), dict(box=True, cens=True, n=20, law="user"), dict(cand=12, sampling=40), dict(box=True, down=60.0), dict(box=True, down=22.0, cens=True, n=20)]
INV = ["AsManySignals", "Distinct", "SignalsOfTheModel", "NeverTooMany", "GivenPointsFirst", "OneByOne"]
PROP = ["EarlierPointsStay", "OnlyEvaluationAdds", "RunAddsAll"]


def histories(ctx, batch, mores, runs):
    out = {}
    for m in mores:
        cs = ctx.cases("Enrich", constants=dict(N0="2", More=str(m), Batch=str(batch), MaxRuns=str(runs), Changes='{"sizes", "law", "cand", "read"}'),
                       invariants=INV, properties=PROP)
        # a fault after the last evaluation of a run is no fault
        out[m] = [h for h in cs if batch > 1 or all(t["k"] != "run" or t["v"] <= m for t in h)]
        ctx.rng.shuffle(out[m])
    return out


def plan(ctx, hs, variants, base, n):
    cases, i = [], 0
    for m in sorted(hs):
        for h in hs[m][:n[m]]:
            v = dict(base, **variants[i % len(variants)])
            v.update(more=m, s=i)
            cases.append((v, h))
            i += 1
    return cases


def run(ctx):
    pick = ctx.pick
    hs = histories(ctx, 1, (0, 1, 2, 3), 3)
    h4 = histories(ctx, 1, (1,), 4)
    cases = plan(ctx, hs, VARIANTS, BASE, {0: 8, 1: pick(60, 400), 2: pick(90, 1000), 3: pick(40, 1500)})
    cases += plan(ctx, h4, VARIANTS, dict(BASE, final=False), {1: pick(30, 300)})
    evs = ctx.replay(enrich.play, cases, limit=pick(200, 400))
    ch = [dict(s=i, dim=2 + i % 2, cand=(3 + i % 4, 8 + i % 4)[i // 4 % 2], start=4 * (i % 4 == 3)) for i in range(pick(120, 900))]
    ce = ctx.replay(enrich.do_choice, ch, limit=300)
    ctx.extra["choices_with_a_clear_winner"] = sum(1 for t in ce for e in t if e["op"] == "choice" and clear(e))
    evs += ce
    th = ctx.replay(enrich.do_theta, [dict(s=i, dim=2 + (i % 5 == 4), n=10 + i % 7 if i % 4 == 0 else 18 + i % 9, rough=(0, 1, 3, 8, 15)[(i // 2) % 5], freq=(1, 4)[i % 2], start=(4, 7, 0)[i % 3] if i % 4 else 6, aim=(0, 0.92, 0.975, 0.93)[i % 4] if i % 3 != 2 else 0)
                                      for i in range(pick(60, 600))], limit=300)
    ctx.extra["scales_kept"] = sum(1 for t in th for e in t if e["op"] == "theta" and not e["fixed"] and e["q2"] > [0, 951000000])
    ctx.extra["scales_estimated_again"] = sum(1 for t in th for e in t if e["op"] == "theta" and not e["fixed"] and e["q2"] < [0, 949000000])
    evs += th
    ctx.extra["histories"] = len(cases)
    ctx.extra["failing_runs"] = sum(1 for t in evs for e in t if e["op"] == "run" and not e["ok"])
    ctx.extra["successful_runs"] = sum(1 for t in evs for e in t if e["op"] == "run" and e["ok"])
    ctx.sample({"config": cases[0][0], "history": cases[0][1]})
    ctx.validate("EnrichTrace", evs, broken=False)
    rejects(ctx, evs)
    ctx.assumptions += ["the law of the inputs is continuous"]
    return ctx.finish()


def clear(e):
    """some candidate is refused under both readings"""
    c = [[[a + b / 1e9 for a, b in e[k]] for k in (w, w + "up")] for w in ("kept", "estimated")]
    return any(all(lo[i] > min(up) + 0.06 for lo, up in c) for i in range(len(c[0][0])))


def rejects(ctx, evs):
    good = [t for t in evs if t[-1]["op"] != "crash" and any(e["op"] == "run" and e["ok"] and e["more"] > 0 for e in t)][0]

    def bad(f):
        t = copy.deepcopy(good)
        e = [e for e in t if e["op"] == "run" and e["ok"]][0]
        f(e)
        ctx.must_reject("EnrichTrace", [t], broken=False)

    bad(lambda e: (e["pts"].pop(), e["sig"].pop()))
    bad(lambda e: e["sig"].__setitem__(-1, [e["sig"][-1][0] + 1, 0]))
    bad(lambda e: e["pts"].__setitem__(-1, e["pts"][0]))
