"""C05 quantile regression."""
import copy
import math

import numpy as np
import openturns as ot
from statsmodels.regression.quantile_regression import QuantReg

import studies as S
from common import call, fx, fxs

FAR = 0.16      # of the range of sizes: the iterative fit stops early on some data
NEAR = 0.03


def do_exact(chunk):
    evs = []
    for xs, c in chunk:
        x = np.repeat(np.array(xs, float), 6)
        y = np.repeat(np.array(c["y"], float), 6)
        p = 1 - c["t"] / 10.0
        # an integer threshold crossed in the middle of the observed sizes
        mid = 0.5 * (min(xs) + max(xs))
        det = int(round(c["y0"] + (mid - c["x0"]) * c["rise"] / c["d"]))
        want = c["x0"] + (det - c["y0"]) * c["d"] / c["rise"]
        if not min(xs) + 1 <= want <= max(xs) - 1:
            continue
        o = S.build("qr", x.reshape(-1, 1), y.reshape(-1, 1), float(det), sim=2, quantiles=[p])
        ok, _ = call(S.run, o, 5)
        if not ok:
            continue      # a bootstrap sample may have no crossing
        ok, v = call(o.computeDetectionSize, p)
        got = float(v[0]) if ok else -1.0
        w = max(xs) - min(xs)
        evs.append({"op": "exact", "x0": c["x0"], "y0": c["y0"], "d": c["d"], "rise": c["rise"], "det": det, "ok": ok,
                    "got1000": int(round(got * 1000)), "far": int(FAR * w * 1000), "y": c["y"], "t": c["t"],
                    "near": abs(got - want) <= NEAR * w})
        f = o.getPODModel()
        evs.append(knot(f, got, p, max(xs), "exact"))
    return evs


def line_at(fit, a):
    b = fit.params
    return b[0] + b[1] * a


def fit(x, y, tau):
    return QuantReg(np.asarray(y, float), np.c_[np.ones(len(x)), x]).fit(tau, max_iter=300, p_tol=1e-2)


def knot(f, a, p, hi, case):
    d = 3e-5
    return {"op": "knot", "p": fx(p), "left": fx(S.values(f, [max(a - d, 0)])[0]), "right": fx(S.values(f, [min(a + d, hi)])[0]), "case": str(case)}


def data(s, n):
    x, y = S.line_data(n, s, noise=(0.6, 1.5, 3.0)[s % 3])
    return x, y


PS = ([0.1, 0.5, 0.9], [0.9, 0.2, 0.6, 0.35], [0.75], [0.97, 0.5, 0.03, 0.25])


def do_real(case):
    s, n, cens = case
    x, y = data(s, n)
    det = float(np.quantile(y, (0.35, 0.5, 0.65)[s % 3]))
    noise = float(np.quantile(y, 0.08)) if cens else None
    sat = float(np.quantile(y, 0.95)) if cens else None
    k = np.ones(n, bool) if not cens else (y > noise) & (y < sat)
    xk, yk = x[k], y[k]
    ps = PS[s % len(PS)]
    o = S.build("qr", x.reshape(-1, 1), y.reshape(-1, 1), det, noise, sat, sim=4, quantiles=ps)
    ok, _ = call(S.run, o, s)
    if not ok:
        return [{"op": "norun"}]
    evs = []
    lo, hi = xk.min(), xk.max()
    for p in (0.02, 0.1, 0.3, 0.5, 0.58, 0.8, 0.9, 0.99) + tuple(ps):
        m = fit(xk, yk, 1 - p)
        a = (det - m.params[0]) / m.params[1]
        ok, v = call(o.computeDetectionSize, p)
        inside = lo <= a <= hi
        if min(abs(a - lo), abs(a - hi)) > 1e-4:
            evs.append({"op": "size", "inside": bool(inside), "ok": ok, "got": fx(v[0] if ok else 0), "want": fx(a), "tol": 100000,
                        "case": str(case), "p": str(p)})
    # the line may be away from the data for a very shallow or very steep threshold
    f = o.getPODModel()
    sz = []
    for p in sorted(ps):
        m = fit(xk, yk, 1 - p)
        sz.append((det - m.params[0]) / m.params[1])
        if 0 <= sz[-1] <= hi:
            evs.append(knot(f, sz[-1], p, hi, case))
    evs.append({"op": "zero", "got": fx(S.values(f, [0.0])[0])})
    if all(b - a > 1e-3 for a, b in zip(sz, sz[1:])):
        full = [0.0] + sz + [hi]
        for a, b in zip(full, full[1:]):
            if b - a > 1e-3:
                q = (b - a) / 8.0
                for c in (a + q, a + 4 * q):
                    evs.append({"op": "mid", "f": fxs(S.values(f, [c, c + 1.4 * q, c + 2.8 * q])), "case": str(case)})
        if hi - sz[-1] > 1e-3:
            evs.append({"op": "end", "got": fx(S.values(f, [hi])[0]), "p": fx(max(ps))})
            evs.append({"op": "end", "got": fx(S.values(f, [0.5 * (hi + sz[-1])])[0]), "p": fx(max(ps))})
    for tau in (0.1, 0.5, 0.8):
        m = QuantReg(yk, np.c_[np.ones(len(xk)), xk]).fit(tau)
        r = yk - m.params[0] - m.params[1] * xk
        r0 = yk - np.quantile(yk, tau)
        rho = lambda u: np.sum(np.where(u < 0, (tau - 1) * u, tau * u))
        evs.append({"op": "r2", "got": fx(o.getR2(tau)), "want": fx(1 - rho(r) / rho(r0)), "tol": 5000000, "case": str(case)})
    return evs


def inverse(f, p, hi):
    """the size at which the increasing curve f takes the value p"""
    a, b = 0.0, hi
    for _ in range(45):
        m = 0.5 * (a + b)
        if f([m])[0] < p:
            a = m
        else:
            b = m
    return 0.5 * (a + b)


def transformed(y, det):
    """a data set and its threshold, by the Box-Cox transformation estimated on this data set"""
    sh = 100 - y.min() if y.min() < 0 else 0.0
    lam = ot.BoxCoxFactory().build(ot.Sample(np.reshape(y + sh, (-1, 1)))).getLambda()[0]
    f = lambda v: np.log(v) if abs(lam) < 1e-9 else (np.power(v, lam) - 1) / lam
    return f(y + sh), float(f(det + sh))


def do_boot(case):
    s, n, sim, m, near, box = case
    x, y = data(s, n)
    if box == "neg":        # a part of the signals is negative
        y = y - np.quantile(y, 0.3)
    det = float(np.quantile(y, 0.5 if s % 2 else 0.62))
    ps = [0.3, 0.5, 0.9]
    if near:
        # crossings close to a size of zero: those of some bootstrap samples are below
        x = np.round(x - x.min() + 0.004, 4)
        b = fit(x, y, 1 - ps[0]).params
        det = float(np.round(b[0] + 0.004 * b[1], 4))
        z = [fit(x, y, 1 - p).params for p in ps]
        if not all(0.002 < (det - q[0]) / q[1] < 0.8 * x.max() for q in z):
            return [{"op": "norun"}]
    o = S.build("qr", x.reshape(-1, 1), y.reshape(-1, 1), det, None, None, bool(box), sim=sim, quantiles=ps)
    ok, why = call(S.run, o, s)
    if not ok:
        return [{"op": "crash", "case": str(case), "exc": str(why)[:200]}] if near else [{"op": "norun"}]
    r = np.random.RandomState(1000 + s)
    ref = np.empty((m, len(ps)))
    for k in range(m):
        i = r.randint(0, n, n)
        yk, d = (y[i], det) if not box else transformed(y[i], det)
        for j, p in enumerate(ps):
            q = fit(x[i], yk, 1 - p).params
            ref[k, j] = (d - q[0]) / q[1]
    ref.sort(axis=0)
    evs = []
    hi = x.max()
    for c in (0.05, 0.3, 0.5, 0.8, 0.95):
        f = o.getPODCLModel(c)
        tol = 5.5 * math.sqrt(c * (1 - c) * (1.0 / sim + 1.0 / m)) + 1.5 / sim + 1.0 / m
        for j, p in enumerate(ps):
            a = inverse(f, p, hi)
            if a < 1e-6 and f([0.0])[0] > p + 1e-6:      # below zero
                evs.append({"op": "rank", "rank": fx(min(c, np.mean(ref[:, j] <= 0))), "want": fx(c), "tol": int(tol * 1e9), "case": str(case), "c": str(c), "p": str(p)})
                continue
            lo = np.searchsorted(ref[:, j], a - 3e-5, "left") / m
            up = np.searchsorted(ref[:, j], a + 3e-5, "right") / m
            evs.append({"op": "rank", "rank": fx(min(max(c, lo), up)), "want": fx(c), "tol": int(tol * 1e9), "case": str(case),
                        "c": str(c), "p": str(p)})
    return evs


def do_count(case):
    s, = case
    n = 60
    x, y = data(s, n)
    det = float(np.quantile(y, 0.5))
    hi = x.max()

    def at(sim, cs):
        o = S.build("qr", x.reshape(-1, 1), y.reshape(-1, 1), det, sim=sim, quantiles=[0.5, 0.6])
        S.run(o, s)
        return [inverse(o.getPODCLModel(c), 0.5, hi) for c in cs]

    one = at(1, (0.01, 0.5, 0.99))
    two = at(2, (0.01, 0.99))
    evs = [{"op": "single", "lo": fxs(one[:2]), "hi": fxs(one[1:])}, {"op": "spread", "lo": fxs(two[:1]), "hi": fxs(two[1:])}]
    k = 12
    evs.append({"op": "distinct", "at": fxs(at(k, [(i + 0.5) / k for i in range(k)])), "least": k // 2, "most": k - 1})
    return evs


def run(ctx):
    xs = ctx.pick([1, 2, 5, 7, 11, 12], [1, 2, 5, 7, 11, 12])
    cs = ctx.cases("Quantile", constants={"Xs": "<<%s>>" % ",".join(map(str, xs)), "Slope": "3", "Errs": ctx.pick("{-4, 0, 3}", "{-5, -1, 0, 4}"),
                                          "Levels": ctx.pick("{2, 7}", "{1, 2, 5, 7, 9}"), "Gap": "4"},
                   invariants=["Optimal", "Share"], workers=8, timeout=3000)
    ctx.extra["exact_data_sets"] = len(cs)
    ctx.rng.shuffle(cs)
    cs = cs[:ctx.pick(600, 6000)]
    traces = ctx.replay(do_exact, [[(xs, c) for c in cs[i:i + 15]] for i in range(0, len(cs), 15)], limit=300)
    ex = [e for t in traces for e in t if e["op"] == "exact"]
    ctx.extra["exact_replayed"] = len(ex)
    if len(ex) < len(cs) // 3:
        traces.append([{"op": "crash", "case": "exact", "exc": "most studies do not run: %d of %d" % (len(ex), len(cs))}])
    else:
        for t in sorted(set(e["t"] for e in ex)):
            part = [e for e in ex if e["t"] == t]
            traces.append([{"op": "share", "all": len(part), "near": sum(e["near"] for e in part), "percent": 75, "level": t}])
    real = ctx.replay(do_real, [(s, n, c) for s in range(ctx.pick(12, 120)) for n in (40, 80) for c in (False, True)], limit=300)
    boot = ctx.replay(do_boot, [(s, 50, ctx.pick(150, 400), ctx.pick(300, 1000), False, "") for s in range(ctx.pick(6, 24))], limit=900)
    edge = ctx.replay(do_boot, [(100 + s, 50, ctx.pick(150, 400), ctx.pick(300, 1000), True, "") for s in range(ctx.pick(8, 30))], limit=900)
    box = ctx.replay(do_boot, [(200 + s, (20, 30, 40)[s % 3], ctx.pick(150, 400), ctx.pick(300, 1000), False, ("yes", "neg")[s % 2]) for s in range(ctx.pick(8, 30))], limit=900)
    ran = [t for t in box if t[0]["op"] != "norun"]
    ctx.extra["studies_with_box_cox"] = len(ran)
    # some bootstrap sample may have no crossing; not in most of the studies
    traces += ran if 2 * len(ran) >= len(box) else [[{"op": "crash", "case": "box", "exc": "most studies do not run: %d of %d" % (len(ran), len(box))}]]
    edge = [t for t in edge if t[0]["op"] != "norun"]
    ctx.extra["studies_near_zero"] = len(edge)
    traces += edge
    boot += ctx.replay(do_count, [(s,) for s in range(ctx.pick(4, 16))], limit=300)
    dead = sum(1 for t in real + boot if t[0]["op"] == "norun")
    ctx.extra["studies_without_run"] = dead
    if dead > len(real + boot) // 3:
        traces.append([{"op": "crash", "case": "real", "exc": "studies do not run"}])
    traces += [t for t in real + boot if t[0]["op"] != "norun"]
    ctx.sample(cs[0])
    ctx.sample(ex[0])
    ctx.validate("QuantileTrace", traces)
    ctx.assumptions.append("the iterative fit of statsmodels is not exact: crossings are compared with the exact optimum at 16%% of the range of sizes each, 3%% for three quarters of them, and tightly with the same fit" .replace("%%", "%"))
    e = copy.deepcopy(ex[0])
    e["got1000"] += 5000
    ctx.must_reject("QuantileTrace", [[e]])
    e = copy.deepcopy(next(e for t in traces for e in t if e["op"] == "knot"))
    e["p"] = fx(e["p"][1] / 1e9 - 0.1)
    ctx.must_reject("QuantileTrace", [[e]])
