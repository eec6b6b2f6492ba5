"""C08 detection sizes."""
import copy

import numpy as np

import curves as E
import studies as S
from common import call, fx, fxs

TOL = 2000000   # in knot units: solver precision 1e-5 on the size, knot unit 0.1


def ends(f, lo, hi):
    return fxs(S.values(f, [lo, hi]))


def sizes(o, p, c=None):
    ok, v = call(o.computeDetectionSize, p) if c is None else call(o.computeDetectionSize, p, c)
    if not ok:
        return False, [], []
    return True, [float(t) for t in v], [str(t) for t in v.getDescription()]


def solve_events(o, v, K, knots, percents, confs, sims):
    evs = []
    lo, hi = knots[0] * E.UNIT, knots[-1] * E.UNIT
    pe = ends(o.getPODModel(), lo, hi)
    for p in percents:
        base = {"op": "solve", "knots": knots, "top": K, "p": p, "pod": pe, "tol": TOL, "sure": sims == 1}
        ok1, v1, n1 = sizes(o, p / 100.0)
        if sims == 1:
            evs.append(dict(base, v=by(v, 0), ok=ok1, got=fx(v1[0] / E.UNIT if ok1 else float("nan"))))
        if ok1:
            evs.append({"op": "names", "got": n1, "ps": [p], "cs": [-1]})
        for c in confs:
            ok2, v2, n2 = sizes(o, p / 100.0, c / 100.0)
            evs.append(dict(base, v=E.by_conf(v, c), ok=ok2, got=fx(v2[1] / E.UNIT if ok2 else float("nan")), c=c))
            if ok2:
                evs.append({"op": "names", "got": n2, "ps": [p, p], "cs": [-1, c]})
                evs.append({"op": "first", "n1": len(v1), "n2": len(v2), "one": fxs(v1[:1]), "two": fxs(v2[:1])})
    return evs


def by(v, s):
    return [t[s] for t in v]


def do_exact(chunk):
    evs = []
    for v, K, knots, percents, confs in chunk:
        sims = len(v[0])
        o = E.exact(v, K, knots, sims)
        evs += solve_events(o, v, K, knots, percents, confs, sims)
    return evs


def bracket(o, f, p, c, lo, hi, which, podends=None):
    ok, v, n = sizes(o, p, c)
    w = hi - lo
    if podends is not None and not podends[0] <= p <= podends[1]:
        # the size without confidence level does not exist: everything is refused
        return [{"op": "bracket", "kind": which, "ends": fxs([2.0, 3.0]), "p": fx(p), "ok": ok, "range": fxs([lo, hi]),
                 "got": fx(lo), "left": fx(p), "right": fx(p), "tol": 0}]
    e = {"op": "bracket", "kind": which, "ends": ends(f, lo, hi), "p": fx(p), "ok": ok, "range": fxs([lo, hi]), "c": str(c),
         "got": fx(0), "left": fx(0), "right": fx(0), "tol": 200000}
    evs = [e]
    if ok:
        a = v[-1]
        d = 3e-4 * max(1.0, abs(a), w)
        e.update(got=fx(a), left=fx(S.values(f, [max(a - d, lo)])[0]), right=fx(S.values(f, [min(a + d, hi)])[0]))
        cs = [-1] if c is None else [-1, int(round(c * 100))]
        evs.append({"op": "names", "got": n, "ps": [int(round(p * 100))] * len(cs), "cs": cs})
        if c is not None:
            ok1, v1, _ = sizes(o, p)
            evs.append({"op": "first", "n1": len(v1), "n2": len(v), "one": fxs(v1), "two": fxs(v[:1])})
    return evs


def study(case):
    kind, s, opt = case
    r = np.random.RandomState(s)
    if kind in S.META or kind in ("adaptive", "hitmiss"):
        dim = 1 + s % 3 if kind != "hitmiss" else 2
        if kind in ("adaptive", "kriging"):
            dim = max(dim, 2)
        x, y = S.surf_data(30 if kind != "chaos" else 60, dim, s, 0.5 + (s % 2), S.shape(s))
        det = float(np.round(np.quantile(y, (0.35, 0.5, 0.65)[s % 3]), 2))
        kw = {}
        if s % 4 == 1:
            lo, hi = x[:, 0].min(), x[:, 0].max()
            kw["sizes"] = list(np.linspace(lo + 0.05, hi - 0.05, 7))
        if kind in ("adaptive", "hitmiss"):
            import openturns as ot

            kw["model"] = ot.PythonFunction(dim, 1, lambda t: [float(S.shape(s)([t])[0])])
            kw["more"] = (0, 2)[s % 2]
        if opt == "rare":
            # few points, one outcome is rare, and a classifier that may never predict it
            n = (8, 12, 20)[s % 3]
            x, y = x[:n], y[:n]
            det = float(np.round(np.mean(np.sort(y)[[1, 2] if s % 2 else [-3, -2]]), 4))
            kw["more"] = (1, 3, 6)[s // 3 % 3]
            kw.pop("sizes", None)
        o = S.build(kind, x, y.reshape(-1, 1), det, box=False, **kw)
        if opt == "rare":
            o.setClassifierType("rf" if s % 4 < 2 else "svc")
            o.setClassifierParameters([[[10], [1], [2], [0]], [[20], [3], [2], [0]], [[0.01], ["linear"], [1], [True]], [[0.2], ["rbf"], [1], [True]]][s % 4])
    else:
        n = (12, 30, 60)[s % 3]
        noise_sd = (1.0, 3.0, 8.0)[(s // 3) % 3]
        if kind == "qr":
            n, noise_sd = 60, (0.5, 1.0, 2.0)[s % 3]
        x, y = S.line_data(n, s, noise=noise_sd)
        if opt == "down":
            y = np.round(60.0 - y, 4)
        if opt == "low" or opt == "high":
            det = float(np.quantile(y, 0.02 if opt == "low" else 0.98))
        else:
            det = float(np.round(np.quantile(y, 0.45), 3))
        kw = {}
        if opt == "cens" and kind != "weibull":
            kw["noise"] = float(np.quantile(y, 0.1))
            kw["sat"] = float(np.quantile(y, 0.9))
        if opt == "box":
            kw["box"] = True
        o = S.build(kind, x.reshape(-1, 1), y.reshape(-1, 1), det, **kw)
    S.run(o, s)
    if kind in S.META or kind in ("adaptive", "hitmiss"):
        z = np.array(o.getDefectSizes())
        lo, hi = float(z.min()), float(z.max())
        dense = np.unique(np.concatenate([np.linspace(lo, hi, 41), z]))
    else:
        lo, hi = float(x.min()), float(x.max())
        if kind == "qr" and "noise" in kw:
            k = (y > kw["noise"]) & (y < kw["sat"])
            lo, hi = float(x[k].min()), float(x[k].max())
        dense = np.linspace(lo, hi, 41)
    return o, lo, hi, dense, kw


def do_study(case):
    kind, s, opt = case
    try:
        o, lo, hi, dense, kw = study(case)
    except Exception:
        if kind == "qr" or opt in ("box", "cens"):
            return []
        raise
    evs = []
    f = o.getPODModel()
    pe = S.values(f, [lo, hi])
    for p in (0.1, 0.29, 0.5, 0.57, 0.9, 0.99):
        if kind != "qr":
            evs += bracket(o, f, p, None, lo, hi, kind)
        ok = sizes(o, p)[0]
        for c in (0.5, 0.58, 0.95):
            g = o.getPODCLModel(c)
            # for quantile regression the first value has its own rule (see C05)
            evs += bracket(o, g, p, c, lo, hi, kind + "_cl", podends=pe if kind != "qr" else ((0.0, 1.0) if ok else (2.0, 3.0)))
    return evs


def run(ctx):
    sets = ctx.pick([((2, 3, 5), 4, 1), ((1, 2, 4, 8), 2, 1), ((2, 3, 5), 2, 2)],
                    [((2, 3, 5), 4, 1), ((1, 2, 4, 8), 4, 1), ((1, 3, 4, 5, 6), 2, 1), ((2, 3, 5), 2, 2), ((2, 5), 4, 2)])
    items = []
    for knots, K, sims in sets:
        cs = ctx.cases("Curves", constants={"Knots": "<<%s>>" % ",".join(map(str, knots)), "K": str(K), "Sims": str(sims),
                                            "Percents": "{10, 25, 50, 75, 90}"},
                       invariants=["Unit", "Nested", "Bound", "Solvable", "Later"], workers=8)
        for i, c in enumerate(cs):
            v = c["v"]
            v = [[t[str(j)] for j in range(1, sims + 1)] if isinstance(t, dict) else t for t in v]
            ps = [50, 25, 75, (1, 10, 20, 29, 30, 57, 58, 90, 95, 99)[i % 10], 90] + ([0, 100] if ctx.thorough else [])
            items.append((v, K, list(knots), sorted(set(ps)), [95] if sims == 1 else [95, 50, 5]))
    ctx.extra["exact_curves"] = len(items)
    traces = ctx.replay(do_exact, [items[i:i + 12] for i in range(0, len(items), 12)], limit=300)
    runs = []
    for s in range(ctx.pick(6, 40)):
        for kind in ("binomial", "gauss", "kernel", "qr"):
            for opt in ("", "down", "low", "high", "cens", "box"):
                if kind == "qr" and opt in ("down", "low", "high"):
                    continue
                runs.append((kind, s, opt))
        runs += [(k, s, "") for k in ("chaos", "kriging", "hitmiss")]
        if s < ctx.pick(3, 10):
            runs.append(("adaptive", s, ""))
    ctx.extra["studies"] = len(runs)
    tr = ctx.replay(do_study, sorted(runs, key=lambda r: r[0] not in ("adaptive", "kriging")), limit=300)
    ctx.extra["studies_without_run"] = sum(1 for t in tr if not t)
    if ctx.extra["studies_without_run"] > len(runs) // 3:
        tr.append([{"op": "crash", "case": "studies", "exc": "more than a third of the studies do not run"}])
    traces += [t for t in tr if t]
    ctx.sample(items[len(items) // 2])
    ctx.sample(traces[0][0])
    ctx.validate("CurvesTrace", traces)
    e = copy.deepcopy(next(e for t in traces for e in t if e["op"] == "solve" and e["ok"] and all(a < b for a, b in zip(e["v"], e["v"][1:]))))
    e["got"] = fx(e["got"][0] + e["got"][1] / 1e9 + 0.05)
    ctx.must_reject("CurvesTrace", [[e]])
    e = copy.deepcopy(next(e for t in traces for e in t if e["op"] == "bracket" and not e["ok"] and e["ends"][0] == [0, 0] and e["p"] > e["ends"][1] and e["p"][1] - e["ends"][1][1] > 1000))
    e.update(ok=True, got=e["range"][0], left=fx(0), right=fx(1), tol=10)
    ctx.must_reject("CurvesTrace", [[e]])
