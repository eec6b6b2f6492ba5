"""C04 confidence curves of the linear studies."""
import copy
import math

import numpy as np
import openturns as ot

import linref as R
import studies as S
from c03 import GRID, scaled
from common import fx, fxs

LEVELS = [0.05, 0.5, 0.8, 0.95, 0.99]


def do_small(chunk):
    evs = []
    for c, v in chunk:
        x, y, d, g = scaled(c, v)
        n = len(x)
        o = S.run(S.build("binomial", x.reshape(-1, 1), y.reshape(-1, 1), d))
        cl = [S.values(o.getPODCLModel(q), g) for q in LEVELS]
        evs.append({"op": "binomialcl", "x": c["x"], "y": c["y"], "d": c["d"], "grid": GRID,
                    "cl": [fxs(t) for t in cl],
                    "tab": [fxs([R.beta_bound(n, r, q) for r in range(n + 1)]) for q in LEVELS]})
        pod = S.values(o.getPODModel(), g)
        part = [k for k, p in enumerate(pod) if p < 1]
        full = [k for k, p in enumerate(pod) if p >= 1]
        evs.append({"op": "nested", "cl": [fxs([t[k] for k in part]) for t in cl], "kind": "binomial"})
        if full:
            evs.append({"op": "crossing", "cl": fxs([t[full[0]] for t in cl]),
                        "key": "binomial confidence curve where every residual exceeds the gap"})
    return evs


def line(n, s, slope=5.0, sd=1.0):
    r = np.random.RandomState(500 + s)
    x = np.round(r.uniform(0.1, 3.0, n), 3)
    y = np.round(2.0 + slope * x + r.randn(n) * sd, 3)
    return x, y


def do_trunc(case):
    """the count of residuals above the gap, on sample sizes whose inverse is not exact in binary"""
    n = case
    x = np.arange(n, dtype=float)
    r = np.random.RandomState(n)
    y = np.round(3.0 * x + r.randn(n) * n, 2)
    det = float(np.median(y))
    o = S.run(S.build("binomial", x.reshape(-1, 1), y.reshape(-1, 1), det))
    f = R.fit(x, y)
    pod, cl = o.getPODModel(), o.getPODCLModel(0.95)
    evs = []
    for a in np.linspace(-n, 2 * n, 40):
        gap = det - f["b0"] - f["b1"] * a
        if np.min(np.abs(f["res"] - gap)) < 1e-6:
            continue
        r_ = int(np.sum(f["res"] > gap))
        evs.append({"op": "curve", "kind": "count", "got": [fx(cl([a])[0])], "ref": [fx(R.beta_bound(n, r_, 0.95))],
                    "tol": 1000, "n": n, "r": r_,
                    "key": "binomial confidence curve counts one residual less, n=%d r=%d" % (n, r_)
                    if abs(cl([a])[0] - R.beta_bound(n, r_ - 1, 0.95)) < 1e-9 and r_ else ""})
    # one event per count
    seen, out = set(), []
    for e in evs:
        if e["r"] not in seen:
            seen.add(e["r"])
            out.append(e)
    return out


def ref_curves(kind, x, y, det, noise, sat, m, grid, rs):
    """m simulated curves of the documented sampling law, evaluated on the grid"""
    from scipy import stats

    rng = np.random.RandomState(rs)
    out = np.empty((m, len(grid)))
    if kind == "gauss":
        f = R.fit(x, y, noise, sat)
        n = len(f["x"])
        X = np.c_[np.ones(n), f["x"]]
        L = np.linalg.cholesky(np.linalg.inv(X.T @ X))
        sg = f["s"] * np.sqrt((n - 2) / rng.chisquare(n - 2, m))
        b = np.array([f["b0"], f["b1"]]) + sg[:, None] * (rng.randn(m, 2) @ L.T)
        for j, a in enumerate(grid):
            out[:, j] = stats.norm.sf((det - b[:, 0] - b[:, 1] * a) / sg)
    else:
        fac = S.factory(kind)
        n = len(x)
        for k in range(m):
            i = rng.randint(0, n, n)
            f = R.fit(x[i], y[i], noise, sat)
            law = fac.build(ot.Sample(f["res"].reshape(-1, 1)))
            out[k] = [law.computeComplementaryCDF(det - f["b0"] - f["b1"] * a) for a in grid]
    return out


def do_box(case):
    """Box-Cox parameter not given: each bootstrap sample is transformed as a data set of its own"""
    n, s, sim, m = case
    r = np.random.RandomState(s)
    x = np.round(r.uniform(0.1, 3.0, n), 3)
    y = np.round(np.exp(1.0 + 0.6 * x + (0.3, 0.25)[s % 2] * r.randn(n)), 3)
    det = float(np.quantile(y, 0.6))
    o = S.run(S.build("kernel", x.reshape(-1, 1), y.reshape(-1, 1), det, None, None, True, sim=sim), k=s + 3)
    g0 = np.linspace(0.2, 2.9, 28)
    pod = S.values(o.getPODModel(), g0)
    grid = np.array([np.interp(q, pod, g0) for q in (0.15, 0.4, 0.7)])
    rng = np.random.RandomState(s + 77)
    ref = np.empty((m, len(grid)))
    for k in range(m):
        i = rng.randint(0, n, n)
        lam = ot.BoxCoxFactory().build(ot.Sample(y[i].reshape(-1, 1))).getLambda()[0]
        f = R.fit(x[i], R.boxcox(y[i], lam))
        law = ot.KernelSmoothing().build(ot.Sample(f["res"].reshape(-1, 1)))
        ref[k] = [law.computeComplementaryCDF(float(R.boxcox(det, lam)) - f["b0"] - f["b1"] * a) for a in grid]
    ref.sort(axis=0)
    evs = []
    for c in (0.05, 0.2, 0.5, 0.8, 0.95):
        v = S.values(o.getPODCLModel(c), grid)
        q = 1 - c
        tol = 5.5 * math.sqrt(q * (1 - q) * (1.0 / sim + 1.0 / m)) + 1.5 / sim + 1.0 / m
        for k in range(len(grid)):
            lo = np.searchsorted(ref[:, k], v[k] - 1e-6, "left") / m
            hi = np.searchsorted(ref[:, k], v[k] + 1e-6, "right") / m
            evs.append({"op": "rank", "kind": "kernel_box", "rank": fx(min(max(q, lo), hi)), "want": fx(q), "tol": int(tol * 1e9), "case": str(case), "c": str(c)})
    return evs


def do_sim(case):
    kind, n, s, cens, sim, m = case
    x, y = line(n, s)
    noise = float(np.quantile(y, 0.15)) if "n" in cens else None
    sat = float(np.quantile(y, 0.85)) if "s" in cens else None
    det = float(np.quantile(y, 0.55))
    o = S.run(S.build(kind, x.reshape(-1, 1), y.reshape(-1, 1), det, noise, sat, sim=sim), k=s + 3)
    b0, b1, sd, _ = R.ols(x, y)
    grid = np.array([(det - b0 + t * sd) / b1 for t in ((-0.8, 0.0, 0.7) if n > 5 else (-1.7, -0.6, 0.5, 1.6))])
    ref = np.sort(ref_curves(kind, x, y, det, noise, sat, m, grid, s), axis=0)
    evs = []
    for c in (0.02, 0.2, 0.5, 0.8, 0.95, 0.99):
        v = S.values(o.getPODCLModel(c), grid)
        q = 1 - c
        tol = 5.5 * math.sqrt(q * (1 - q) * (1.0 / sim + 1.0 / m)) + 1.5 / sim + 1.0 / m
        for k in range(len(grid)):
            lo = np.searchsorted(ref[:, k], v[k] - 1e-9, "left") / m
            hi = np.searchsorted(ref[:, k], v[k] + 1e-9, "right") / m
            rank = min(max(q, lo), hi)
            evs.append({"op": "rank", "kind": kind, "rank": fx(rank), "want": fx(q), "tol": int(tol * 1e9),
                        "case": str(case), "c": str(c)})
    evs.append({"op": "nested", "kind": kind,
                "cl": [fxs(S.values(o.getPODCLModel(c), grid)) for c in (0.01, 0.05, 0.3, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999)]})
    return evs


def do_count(case):
    """exactly the requested number of curves: one curve gives no spread, two give one; the k-th of five"""
    kind, s = case
    x, y = line(20, s)
    det = float(np.quantile(y, 0.55))
    b0, b1, sd, _ = R.ols(x, y)
    grid = np.array([(det - b0 + t * sd) / b1 for t in (-0.8, 0.0, 0.7)])

    def cl(sim, c):
        o = S.run(S.build(kind, x.reshape(-1, 1), y.reshape(-1, 1), det, sim=sim), k=s + 3)
        return S.values(o.getPODCLModel(c), grid)

    evs = [{"op": "single", "kind": kind, "lo": fxs(cl(1, 0.999)), "hi": fxs(cl(1, 0.001))},
           {"op": "spread", "kind": kind, "lo": fxs(cl(2, 0.999)), "hi": fxs(cl(2, 0.001))}]
    # as many distinct order statistics as simulations
    o = S.run(S.build(kind, x.reshape(-1, 1), y.reshape(-1, 1), det, sim=30), k=s + 3)
    evs.append({"op": "distinct", "kind": kind,
                "cl": [fx(S.values(o.getPODCLModel(1 - (k + 0.5) / 30), grid[1:2])[0]) for k in range(30)]})
    # number of distinct curves seen by the extreme and middle levels of a run with 3 simulations
    evs.append({"op": "spread", "kind": kind, "lo": fxs(cl(3, 0.999)), "hi": fxs(cl(3, 0.5))})
    evs.append({"op": "spread", "kind": kind, "lo": fxs(cl(3, 0.5)), "hi": fxs(cl(3, 0.001))})
    return evs


def run(ctx):
    designs = ctx.pick("{<<0, 1, 2, 3>>, <<3, 1, 0, 1>>}",
                       "{<<0, 1, 2, 3>>, <<3, 1, 0, 1>>, <<2, 0, 2, 1>>, <<0, 0, 3, 3>>, <<1, 3, 2>>}")
    cs = ctx.cases("LinearPOD", constants={"Designs": designs, "Vals": "0..3", "Dets": ctx.pick("{1, 2}", "0..3"), "Sizes": "{-1, 0, 1, 2, 3, 4}"},
                   invariants=["Counted", "Bounded", "Rises", "Falls", "LeastSquares", "Sound"], timeout=1800)
    items = [(c, k % 3) for k, c in enumerate(cs)]
    if not ctx.thorough:
        items = items[::2]
    traces = ctx.replay(do_small, [items[i:i + 16] for i in range(0, len(items), 16)])
    traces += ctx.replay(do_trunc, ctx.pick([5, 8, 16, 32], [5, 8, 13, 16, 20, 32, 64]))
    sims = []
    m = ctx.pick(1, 5)
    for s in range(m):
        for n in (4, 5):     # few degrees of freedom
            sims.append(("gauss", n, s + n, "", ctx.pick(6000, 20000), 100000))
        for n, cens in ((10, ""), (30, ""), (40, "ns"), (40, "n")):
            sims.append(("gauss", n, s + n, cens, ctx.pick(1500, 4000), 30000))
        sims.append(("kernel", 20, s + 11, "", ctx.pick(400, 1500), ctx.pick(800, 2000)))
        sims.append(("kernel", 35, s + 12, "s" if ctx.thorough else "", ctx.pick(300, 400), ctx.pick(600, 600)))
    traces += ctx.replay(do_sim, sims, limit=ctx.pick(400, 3000))
    traces += ctx.replay(do_box, [(n, 30 + s, ctx.pick(1000, 3000), ctx.pick(1500, 4000)) for s in range(ctx.pick(1, 4)) for n in (12, 14, 16, 20)], limit=ctx.pick(400, 3000))
    traces += ctx.replay(do_count, [(k, s) for k in ("gauss", "kernel") for s in range(ctx.pick(3, 12))], limit=200)
    ctx.extra["integer_data_sets"] = len(items)
    ctx.extra["simulated_runs"] = len(sims)
    ctx.sample(items[5])
    ctx.sample(sims[0])
    ctx.assumptions.append("sampling laws are compared with an independent simulation, 5.5 standard deviations allowed")
    ctx.validate("LinearTrace", traces)
    e = copy.deepcopy(traces[0][0])
    e["cl"][2][3] = fx(0.123)
    ctx.must_reject("LinearTrace", [[e]])
