"""C07 curves: probabilities, nesting, no extrapolation."""
import copy

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import c08
import curves as E
import studies as S
from common import call, fx, fxs

CLS = [0.01, 0.05, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99]
LISTED = ("chaos", "kriging", "adaptive", "hitmiss")


def do_exact(chunk):
    evs = []
    for v, K, knots in chunk:
        sims = len(v[0])
        o = E.exact(v, K, knots, sims)
        if sims == 1:
            evs.append({"op": "knots", "v": c08.by(v, 0), "top": K, "got": E.quarters(o.getPODModel(), knots)})
        else:
            evs.append(mean_event(o, v, K, knots))
        for c in E.CONF if sims == 2 else (95, 50, 5):
            w = E.by_conf(v, c) if sims == 2 else c08.by(v, 0)
            evs.append({"op": "knots", "v": w, "top": K, "got": E.quarters(o.getPODCLModel(c / 100.0), knots), "c": c})
    return evs


def mean_event(o, v, K, knots):
    return {"op": "mean", "lo": [min(t) for t in v], "hi": [max(t) for t in v], "mix": [E.W[0] * t[0] + E.W[1] * t[1] for t in v],
            "top": K, "tol": 130000000, "got": fxs(S.values(o.getPODModel(), [a * E.UNIT for a in knots]))}


def edge(what, inside, f, *a, **k):
    ok, v = call(f, *a, **k)
    if what == "draw":
        plt.close("all")
    return {"op": "edge", "what": what, "inside": inside, "ok": ok}


def do_study(case):
    kind, s, opt, draw = case
    try:
        o, lo, hi, dense, kw = c08.study((kind, s, opt))
    except Exception:
        if kind == "qr" or opt in ("box", "cens"):
            return []
        raise
    w = hi - lo
    pod = S.values(o.getPODModel(), dense)
    cl = [S.values(o.getPODCLModel(c), dense) for c in CLS]
    evs = [{"op": "unit", "kind": kind, "got": fxs(pod)}]
    evs += [{"op": "unit", "kind": kind + "_cl", "got": fxs(t)} for t in cl]
    part = list(range(len(dense)))
    if kind == "binomial":
        full = [k for k, p in enumerate(pod) if p >= 1]
        part = [k for k, p in enumerate(pod) if p < 1]
        if full:
            evs.append({"op": "crossing", "cl": fxs([t[full[0]] for t in cl]),
                        "key": "binomial confidence curve where every residual exceeds the gap"})
    evs.append({"op": "nested", "kind": kind, "cl": [fxs([t[k] for k in part]) for t in cl]})
    if kind in LISTED:
        for f in (o.getPODModel(), o.getPODCLModel(0.9)):
            for a in (lo - 1e-6, lo - 0.05 * w, hi + 1e-6, hi + 0.05 * w, hi + 100.0, -100.0):
                evs.append(edge("value", False, f, [a]))
            for a in (lo, hi, lo + 0.3 * w):
                evs.append(edge("value", True, f, [a]))
    if (kind in LISTED or kind == "qr") and draw:
        c = (None, 0.9)[s % 2]
        for a, b, inside in ((lo + 0.2 * w, hi - 0.2 * w, True), (None, None, True), (lo, hi, True), (None, hi - 0.1 * w, True),
                             (lo + 0.1 * w, None, True),
                             (lo - 0.01 * w, None, False), (hi + 0.01 * w, None, False),
                             (None, hi + 0.01 * w, False), (None, lo - 0.01 * w, False), (lo - 0.1, hi + 0.1, False)):
            k = {}
            if a is not None:
                k["defectMin"] = a
            if b is not None:
                k["defectMax"] = b
            evs.append(edge("draw", inside, o.drawPOD, None, c, nbPt=12, **k))
    return evs


def run(ctx):
    sets = ctx.pick([((2, 3, 5), 4, 1), ((1, 2, 4, 8), 2, 1), ((2, 3, 5), 2, 2)],
                    [((2, 3, 5), 4, 1), ((1, 2, 4, 8), 4, 1), ((1, 3, 4, 5, 6), 2, 1), ((2, 3, 5), 2, 2), ((2, 5), 4, 2), ((2, 3, 5), 3, 2)])
    items = []
    for knots, K, sims in sets:
        cs = ctx.cases("Curves", constants={"Knots": "<<%s>>" % ",".join(map(str, knots)), "K": str(K), "Sims": str(sims),
                                            "Percents": "{10, 25, 50, 75, 90}"},
                       invariants=["Unit", "Nested", "Bound", "Solvable", "Later"], workers=8)
        for c in cs:
            items.append((c["v"], K, list(knots)))
    ctx.extra["exact_curves"] = len(items)
    traces = ctx.replay(do_exact, [items[i:i + 12] for i in range(0, len(items), 12)], limit=300)
    runs = []
    for s in range(ctx.pick(6, 60)):
        for kind in ("binomial", "gauss", "kernel", "weibull", "qr"):
            for opt in ("", "down", "low", "high", "cens", "box"):
                if kind == "qr" and opt in ("down", "low", "high"):
                    continue
                if kind == "weibull" and opt in ("cens", "box"):
                    continue
                runs.append((kind, s, opt, s < 4))
        runs += [(k, s, "", s < 4) for k in ("chaos", "kriging", "hitmiss")]
        runs += [("hitmiss", 4 * s + k, "rare", False) for k in range(4)]
        if s < ctx.pick(3, 12):
            runs.append(("adaptive", s, "", s < 4))
    ctx.extra["studies"] = len(runs)
    tr = ctx.replay(do_study, sorted(runs, key=lambda r: r[0] not in ("adaptive", "kriging")), limit=300)
    ctx.extra["studies_without_run"] = sum(1 for t in tr if not t)
    if ctx.extra["studies_without_run"] > len(runs) // 3:
        tr.append([{"op": "crash", "case": "studies", "exc": "more than a third of the studies do not run"}])
    traces += [t for t in tr if t]
    ctx.sample(items[len(items) // 2])
    ctx.sample(runs[0])
    ctx.validate("CurvesTrace", traces)
    pool = [e for t in traces for e in t]
    e = copy.deepcopy(next(e for e in pool if e["op"] == "nested" and e["kind"] == "kernel"))
    e["cl"] = e["cl"][::-1]
    ctx.must_reject("CurvesTrace", [[e]])
    e = copy.deepcopy(next(e for e in pool if e["op"] == "edge" and not e["inside"]))
    e["ok"] = True
    ctx.must_reject("CurvesTrace", [[e]])
    e = copy.deepcopy(next(e for e in pool if e["op"] == "unit"))
    e["got"][0] = fx(1.00001)
    ctx.must_reject("CurvesTrace", [[e]])
    e = copy.deepcopy(next(e for e in pool if e["op"] == "knots" and e["v"][0] != e["v"][1]))
    e["got"][0][2] = e["got"][0][0]
    ctx.must_reject("CurvesTrace", [[e]])
