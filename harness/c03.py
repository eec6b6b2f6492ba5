"""C03 linear POD curves."""
import copy
import math

import numpy as np
import openturns as ot
import otpod
from scipy import stats

import linref as R
import studies as S
from common import fx, fxs

GRID = [-1, 0, 1, 2, 3, 4]


def scaled(c, v):
    """the same data on another scale: the POD is unchanged"""
    x, y, d = np.array(c["x"], float), np.array(c["y"], float), float(c["d"])
    g = np.array(GRID, float)
    if v == 1:
        return x * 0.3 + 2.0, y * 7.5 - 11.0, d * 7.5 - 11.0, g * 0.3 + 2.0
    if v == 2:
        return x * 10.0, y * 0.01 + 1.0, d * 0.01 + 1.0, g * 10.0
    return x, y, d, g


def terms(c):
    x, y, d = c["x"], c["y"], c["d"]
    n = len(x)
    sx, sxx, sxy, sy = sum(x), sum(t * t for t in x), sum(p * q for p, q in zip(x, y)), sum(y)
    D, Sl, I = n * sxx - sx * sx, n * sxy - sx * sy, sy * sxx - sx * sxy
    return [[d * D - I - Sl * a, D + sxx - 2 * a * sx + n * a * a] for a in GRID]


def do_small(chunk):
    evs = []
    for c, v in chunk:
        x, y, d, g = scaled(c, v)
        n = len(x)
        o = S.run(S.build("binomial", x.reshape(-1, 1), y.reshape(-1, 1), d))
        pod = S.values(o.getPODModel(), g)
        evs.append({"op": "binomial", "x": c["x"], "y": c["y"], "d": c["d"], "grid": GRID,
                    "ngot": fxs([n * p for p in pod])})
        if c["rss"] > 0:
            o = S.run(S.build("gauss", x.reshape(-1, 1), y.reshape(-1, 1), d, sim=1))
            tt = terms(c)
            ref = [float(stats.norm.sf(m * math.sqrt(n * (n - 2) / (c["rss"] * p)))) for m, p in tt]
            evs.append({"op": "gauss", "x": c["x"], "y": c["y"], "d": c["d"], "grid": GRID, "terms": tt,
                        "rss": c["rss"], "got": fxs(S.values(o.getPODModel(), g)), "ref": fxs(ref)})
    return evs


def do_big(case):
    kind, n, s, slope, dq, cens = case
    r = np.random.RandomState(1000 + s)
    x = np.round(r.uniform(0.1, 3.0, n), 3)
    y = np.round(2.0 + slope * x + r.randn(n) * (0.5 + (s % 3) * 0.5), 3)
    noise = float(np.round(np.quantile(y, 0.2), 3)) if "n" in cens else None
    sat = float(np.round(np.quantile(y, 0.8), 3)) if "s" in cens else None
    det = float(np.round(np.quantile(y, dq), 3))
    cont = [lambda a: a.reshape(-1, 1), lambda a: a.reshape(-1, 1).tolist(), lambda a: ot.Sample(a.reshape(-1, 1))][s % 3]
    o = S.run(S.build(kind, cont(x), cont(y), det, noise, sat, sim=2))
    f = R.fit(x, y, noise, sat)
    grid = np.linspace(x.min(), x.max(), 9)
    got = S.values(o.getPODModel(), grid)
    tol = 500000 if not cens else 30000000   # the censored optimum is only sought to 1e-4 by the study
    if kind == "gauss":
        ref = [R.pod_gauss(f, det, a) for a in grid]
    elif kind == "binomial":
        # away from a jump: the count just before and just after must be the same
        ref, keep = [], []
        for k, a in enumerate(grid):
            gap = det - f["b0"] - f["b1"] * a
            eps = 1e-9 if not cens else 0.02
            if np.mean(f["res"] > gap - eps) == np.mean(f["res"] > gap + eps):
                keep.append(k)
                ref.append(R.pod_binomial(f, det, a))
        got = [got[k] for k in keep]
        tol = 1000
    else:
        ref = [R.pod_law(f, det, a, S.factory(kind)) for a in grid]
    extra = []
    if cens:
        # from the fit that an analysis of the same data reports: to rounding
        an = otpod.UnivariateLinearModelAnalysis(cont(x), cont(y), noise, sat, S.factory(kind), False)
        g = dict(f, b0=list(an.getIntercept())[-1], b1=list(an.getSlope())[-1], s=list(an.getStandardError())[-1])
        g["res"] = g["y"] - g["b0"] - g["b1"] * g["x"]
        if kind == "gauss":
            r2nd = [R.pod_gauss(g, det, a) for a in grid]
        elif kind == "binomial":
            r2nd = [R.pod_binomial(g, det, a) for a in grid]
        else:
            r2nd = [R.pod_law(g, det, a, S.factory(kind)) for a in grid]
        nll = lambda b0, b1, sd: R.negloglik((b0, b1, sd), f["x"], f["y"], f["xn"], f["xs"], noise, sat)
        extra = [{"op": "curve", "kind": "censored_likelihood_is_maximal", "got": [fx(nll(g["b0"], g["b1"], g["s"]) - nll(f["b0"], f["b1"], f["s"]))], "ref": [fx(0.0)], "tol": 1000000, "case": str(case)}]
        extra += [{"op": "curve", "kind": kind + "_of_the_reported_fit", "got": fxs(S.values(o.getPODModel(), grid)), "ref": fxs(r2nd), "tol": 1000000, "case": str(case)}]
    return extra + [{"op": "curve", "kind": kind + ("_censored" if cens else ""), "got": fxs(got), "ref": fxs(ref), "tol": tol,
             "case": str(case)},
            {"op": "r2", "got": fx(o.getR2()), "ref": fx(R.r2(f)), "tol": 100000 if not cens else 10000000, "case": str(case)}]


def run(ctx):
    designs = ctx.pick("{<<0, 1, 2, 3>>, <<3, 1, 0, 1>>}", "{<<0, 1, 2, 3>>, <<3, 1, 0, 1>>, <<2, 0, 2, 1>>, <<0, 0, 3, 3>>, <<1, 3, 2>>, <<0, 1, 1, 2, 3>>}")
    cs = ctx.cases("LinearPOD", constants={"Designs": designs, "Vals": "0..3", "Dets": ctx.pick("{1, 2}", "0..3"), "Sizes": "{-1, 0, 1, 2, 3, 4}"},
                   invariants=["Counted", "Bounded", "Rises", "Falls", "LeastSquares", "Sound"], timeout=1800)
    items = [(c, k % 3) for k, c in enumerate(cs)]
    ctx.extra["integer_data_sets"] = len(items)
    traces = ctx.replay(do_small, [items[i:i + 16] for i in range(0, len(items), 16)])
    big = []
    m = ctx.pick(3, 25)
    for kind in ("binomial", "gauss", "kernel"):
        for n in (8, 17, 40):
            for s in range(m):
                for dq in (0.3, 0.7):
                    big.append((kind, n, s + n, (2.0, 6.0, -3.0)[s % 3], dq, ""))
        for cens in ("n", "s", "ns"):
            for n in (25, 60):
                for s in range(m):
                    big.append((kind, n, 100 + s + n, (2.0, 4.0, -3.0)[s % 3], 0.5, cens))
    for kind in ("logistic", "uniform", "laplace", "gumbel", "truncnormal", "lognormal"):
        for n, cens in ((17, ""), (40, ""), (60, "n"), (60, "s")):
            for s in range(ctx.pick(1, 6)):
                big.append((kind, n, 300 + s + n, (2.0, 4.0, -3.0)[s % 3], 0.5, cens))
    ctx.extra["real_data_sets"] = len(big)
    traces += ctx.replay(do_big, big, limit=200)
    ctx.sample(items[5])
    ctx.sample(big[3])
    ctx.validate("LinearTrace", traces)
    for op, field in (("binomial", "ngot"), ("gauss", "got")):
        e = copy.deepcopy(next(e for t in traces for e in t if e["op"] == op))
        e[field][2] = fx(e[field][2][0] + e[field][2][1] / 1e9 + 0.5)
        ctx.must_reject("LinearTrace", [[e]])
