"""C19 PLI of a recorded Monte Carlo run."""
import copy
import math

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
from scipy import integrate, optimize, stats

import otpod._pli as P
import studies as S
from common import call, fx, fxs

OPS = {"Less": ot.Less, "LessOrEqual": ot.LessOrEqual, "Greater": ot.Greater, "GreaterOrEqual": ot.GreaterOrEqual}
LEVELS = [0.5, 0.9, 0.95, 0.99]


# ------------------------------------------------------------- perturbed laws
def law_of(c, r):
    """law of an input: N normal, U uniform; units far from one now and then"""
    if c == "N":
        sd = float(r.choice([1.0, 0.3, 40.0, 1e-3]))
        return ot.Normal(float(np.round(sd * r.uniform(-2, 4), 4)), sd)
    width = float(r.choice([2.0, 0.5, 300.0, 1e-3]))
    low = float(np.round(width * r.choice([-0.5, 0.0, 3.0, 20.0, r.uniform(-2, 2)]), 4))
    return ot.Uniform(low, low + width)


def density(kind, law, delta):
    """reference density of the perturbed law"""
    m, sd = law.getMean()[0], law.getStandardDeviation()[0]
    if law.getImplementation().getClassName() == "Normal":
        return (lambda x: stats.norm.pdf(x, delta, sd)) if kind == "mean" else (lambda x: stats.norm.pdf(x, m, math.sqrt(delta)))
    a, b = [float(t) for t in law.getParameter()]
    h = (b - a) / 2
    inside = lambda x: (x >= a) & (x <= b)
    if kind == "mean":
        t = (delta - m) / h
        if abs(t) < 1e-6:
            l = 3 * t
        else:
            l = optimize.brentq(lambda v: (v / 3 if abs(v) < 1e-5 else 1 / np.tanh(v) - 1 / v) - t, -400, 400, xtol=1e-14)
        z = 0.5 if l == 0 else l / (2 * np.sinh(l))
        return lambda x: np.where(inside(x), z * np.exp(l * (x - m) / h) / h, 0.0)
    t = delta / h**2
    g = np.polynomial.legendre.leggauss(80)

    def var(l):
        w = g[1] * np.exp(l * (g[0] ** 2 - 1))
        return float((w * g[0] ** 2).sum() / w.sum())
    l = optimize.brentq(lambda v: var(v) - t, -200, 200, xtol=1e-12)
    z = 1 / float((g[1] * np.exp(l * g[0] ** 2)).sum())
    return lambda x: np.where(inside(x), z * np.exp(l * ((x - m) / h) ** 2) / h, 0.0)


def ask(kind, scaled, law, r, k):
    """delta of one input: raw value, number of standard deviations, or change of the coefficient of variation"""
    m, sd = law.getMean()[0], law.getStandardDeviation()[0]
    normal = law.getImplementation().getClassName() == "Normal"
    if kind == "mean":
        t = [0.0, -0.7, 0.4, 1.2, -1.5, 1e-7][k % 6]     # in standard deviations
        return t if scaled else m + t * sd
    q = [1.0, 0.7, 1.3, 1.6 if not normal else 2.0, 0.45][k % 5]   # ratio of variances
    if not scaled:
        return q * sd**2
    return (math.sqrt(q) - 1) * sd / m


def monte_carlo(law, op, s, n, block, memo=True, dim=None):
    d = law.getDimension()
    m, sd = np.array(law.getMean()), np.array(law.getStandardDeviation())
    w = np.array([1.0, -0.6, 0.5, 0.8][:d])

    def f(x):                # integer outputs: many points are exactly at the threshold
        return [float(np.floor(2 * ((np.array(x) - m) / sd) @ w + 0.3))]
    g = ot.PythonFunction(d, 1, f)
    g = ot.MemoizeFunction(g) if memo else g
    ev = ot.ThresholdEvent(ot.CompositeRandomVector(g, ot.RandomVector(law)), OPS[op](), (1.0, 0.0, 2.0, -1.0)[s % 4])
    a = ot.ProbabilitySimulationAlgorithm(ev)
    a.setBlockSize(block)
    a.setMaximumOuterSampling(n // block)
    # stopped by the number of points, or earlier by the precision
    a.setMaximumCoefficientOfVariation(-1.0 if s % 3 else 0.12)
    S.seed(s)
    a.run()
    return a.getResult(), g


def make(c, res, law, deltas):
    cls = P.PLIMeanBase if c["kind"] == "mean" else P.PLIVarianceBase
    if not c["scaled"] and c["s"] % 2:
        return cls(res, law, deltas)
    return cls(res, law, deltas, c["scaled"])


def play(case):
    c = case["c"]
    c["s"] = s = case["s"]
    r = np.random.RandomState(s + 5)
    laws = [law_of(t, r) for t in c["laws"]]
    shared = c["shape"] == "shared"
    if shared and not c["scaled"]:
        laws = laws[:1] * len(laws)        # a common new parameter is possible for all
        if s % 2:
            laws = [laws[0]] + [ot.Uniform(l.getMean()[0] - 1.9 * l.getStandardDeviation()[0], l.getMean()[0] + 1.9 * l.getStandardDeviation()[0]) for l in laws[1:]]
    if c["kind"] == "variance" and c["scaled"]:      # coefficient of variation: mean away from 0; shared values must suit all
        wide = lambda l: float(l.getParameter()[1] - l.getParameter()[0])
        laws = [ot.Normal(l.getParameter()[1] * 4, l.getParameter()[1]) if "Normal" in str(l) else ot.Uniform(wide(l), 2 * wide(l)) for l in laws]
    laws = [ot.Distribution(l) for l in laws]
    dim = len(laws)
    law = ot.JointDistribution(laws)
    n, block = case["n"], case["block"]
    res, g = monte_carlo(law, c["op"], s, n, block)
    N = res.getOuterSampling() * res.getBlockSize()
    X, Y = np.array(g.getInputHistory()), np.array(g.getOutputHistory()).ravel()
    thr = res.getEvent().getThreshold()
    fail = {"Less": Y < thr, "LessOrEqual": Y <= thr, "Greater": Y > thr, "GreaterOrEqual": Y >= thr}[c["op"]]
    if fail.sum() == 0 or len(Y) != N:
        return []
    nd = (3, 1, 4, 2)[s % 4]
    D = np.array([[ask(c["kind"], c["scaled"], laws[0 if shared else j], r, k + s) for j in range(dim)] for k in range(nd)])
    given = [D[:, 0], D[:, :1].tolist(), list(D[:, 0])][s % 3] if shared else [D, D.tolist()][s % 2]
    who = "%s n=%d s=%d" % (c, N, s)
    evs = []
    o = make(c, res, law, given)
    o.run()
    idx, pfd = np.array(o.getIndices()), np.array(o.getPerturbedProbabilityEstimate())
    dv = np.array(o.getDeltaSample())
    pf = res.getProbabilityEstimate()
    cls = [Y < thr, Y == thr, Y > thr]
    ci = {l: o.computeConfidenceInterval(l) for l in LEVELS}
    default = o.computeConfidenceInterval()
    xs = []
    ok = idx.shape == pfd.shape == (nd, dim) and len(ci[0.5]) == dim and all(np.array(t).shape == (nd, 2) for t in ci[0.5])
    for k in range(nd if ok else 0):
        for j in range(dim):
            m, sd = laws[j].getMean()[0], laws[j].getStandardDeviation()[0]
            d = D[k, 0 if shared else j]
            asked = [d, m + d * sd, (d * m + sd) ** 2]
            new = asked[(1 if c["kind"] == "mean" else 2) if c["scaled"] else 0]
            unif = laws[j].getImplementation().getClassName() == "Uniform"
            f = density(c["kind"], laws[j], new)
            w = f(X[:, j]) / np.array([laws[j].computePDF([t]) for t in X[:, j]])
            ref = float((w * fail).sum() / N)
            name = c["kind"] + ("_uniform" if unif else "_normal")
            tol = {"mean_normal": 1e-9, "mean_uniform": 1e-6, "variance_normal": 1e-9, "variance_uniform": 1e-3}[name] * max(1.0, ref)
            q = float(pfd[k, j])
            it = 1e-8 * max(1.0, abs(idx[k, j]))
            v2 = float((w**2 * fail).sum() / N) - ref**2
            cov = np.array([[pf * (1 - pf), ref * (1 - pf)], [ref * (1 - pf), v2]])
            gr = np.array([-1 / ref, pf / ref**2]) if ref < pf else np.array([-ref / pf**2, 1 / pf])
            sdi = math.sqrt(max(gr @ cov @ gr, 0.0) / N)
            half = [stats.norm.ppf(0.5 + l / 2) * sdi for l in LEVELS + [0.95]]
            lohi = [ci[l][j][k] for l in LEVELS] + [default[j][k]]
            near = abs(ref - pf) < 10 * tol + 1e-9
            xs.append({"law": name, "delta": fx(dv[k, j] / sd ** (1 if c["kind"] == "mean" else 2) if dv.shape == (nd, dim) else float("nan")),
                       "asked": fxs([float(np.clip(a / sd ** (1 if c["kind"] == "mean" else 2), -1e8, 1e8)) for a in asked]),
                       "q": fxs([float((w * t).sum() / N) for t in cls]), "got": fx(q), "tol": int(tol * 1e9) + 2, "index": fx(idx[k, j]),
                       "up": fx((q - pf) / pf), "down": fx((q - pf) / q if q else float("nan")), "itol": int(it * 1e9) + 2, "neutral": bool(new == (m if c["kind"] == "mean" else sd**2) and (c["kind"] != "variance" or dv[k, j] == laws[j].getCovariance()[0, 0])),
                       "half": fxs(half[:-1]), "lo": fxs([idx[k, j] - t[0] for t in lohi[:-1]]), "hi": fxs([t[1] - idx[k, j] for t in lohi[:-1]]),
                       # where the two laws are nearly the same the variance is a difference of equal numbers
                       "htol": 2000 + int(min(max(half) * (2e-3 if name != "variance_uniform" else 2e-2) + (4e-4 if near else 0) + (math.sqrt(tol / N) if tol > 1e-8 else 0), 0.9) * 1e9)})
            evs.append({"op": "same", "what": "default_level", "a": fxs(lohi[-1]), "b": fxs(ci[0.95][j][k]), "tol": 2})
    evs.append({"op": "study", "op_": c["op"], "kind": c["kind"], "scaled": bool(c["scaled"]), "p": fxs([float(t.sum()) / N for t in cls]), "pf": fx(pf), "shape_": bool(ok), "x": xs, "case": who})
    if not ok:
        return evs
    # same results when deltas are given in another order, when run again after other calls of the function
    back = make(c, res, law, D[::-1, 0] if shared else D[::-1])
    back.run()
    g([float(t) for t in X[0]])
    g([float(t) for t in X[N // 2] * 0.999 + X[0] * 0.001])
    o.run()
    evs.append({"op": "same", "what": "second_run", "a": fxs(idx.ravel()), "b": fxs(np.array(o.getIndices()).ravel()), "tol": 0})
    evs.append({"op": "same", "what": "order_of_deltas", "a": fxs(idx[::-1].ravel()), "b": fxs(np.array(back.getIndices()).ravel()), "tol": 1})
    if s % 5 < case["shown"]:
        evs += shown(case, o, c, laws, D, idx, ci, dv)
    return evs


def shown(case, o, c, laws, D, idx, ci, dv):
    s, dim, nd = c["s"], len(laws), len(D)
    evs = []
    labels = ["a%d" % j for j in range(dim)] if s % 2 else None
    names = labels or list(ot.Description.BuildDefault(dim, "X"))
    for hell, level in ((False, 0.9), (False, None), (True, (0.99, None)[s % 2])):
        fig, ax = o.drawIndices(level, labels, hell)
        lines = [l for l in ax.get_lines() if len(l.get_xdata()) == nd][:dim]
        x = np.concatenate([np.ravel(l.get_xdata()) for l in lines])
        y = np.concatenate([np.ravel(l.get_ydata()) for l in lines])
        sc = 1.0 / max(1.0, np.abs(D).max())
        wx = [D[k, 0 if c["shape"] == "shared" else j] for j in range(dim) for k in range(nd)]
        cand = []
        if hell:
            sc = 1.0
            h = []
            for j in range(dim):
                m, sd = laws[j].getMean()[0], laws[j].getStandardDeviation()[0]
                for k in range(nd):
                    new = dv[k, j]
                    f = density(c["kind"], laws[j], new)
                    lo, hi = laws[j].getRange().getLowerBound()[0], laws[j].getRange().getUpperBound()[0]
                    t = np.linspace(-1, 1, 4001) * (hi - lo) / 2 + (hi + lo) / 2
                    bc = integrate.simpson(np.sqrt(np.array([laws[j].computePDF([v]) for v in t]) * f(t)), x=t)
                    # the density is not continuous at the bounds of a uniform law
                    bc = min(bc, 1.0)
                    sign = -1 if new < (m if c["kind"] == "mean" else laws[j].getCovariance()[0, 0]) else 1
                    h.append((sign, 1 - bc))
            for w in (lambda v: 2 * v, lambda v: v, lambda v: math.sqrt(v), lambda v: math.sqrt(2 * v)):
                cand.append(fxs([t[0] * w(max(t[1], 0)) for t in h]))
        bands = []
        for col in ax.collections:
            v = col.get_paths()[0].vertices
            bands.append(v)
        got, want = [], []
        if level is not None:
            for j in range(min(dim, len(bands))):
                v = bands[j]
                z = np.array(ci.get(level, ci[0.9])[j])
                got += [v[:, 1].min(), v[:, 1].max()]
                want += [z.min(), z.max()]
                got += sorted(set(np.round(v[:, 1], 9)))
                want += sorted(set(np.round(z.ravel(), 9)))
            got.append(len(bands))
            want.append(dim)
        else:
            got, want = [len(bands)], [0]
        cut = lambda v: [float(np.clip(t, -1e8, 1e8)) for t in v]
        if len(got) != len(want):
            got = got[:1]
        text = [t.get_text() for t in ax.get_legend().get_texts()]
        evs.append({"op": "drawn", "hell": cand, "x": fxs(cut(x * sc)), "wx": fxs(cut(np.array(wx) * sc)), "tol": 2000000, "y": fxs(cut(y)), "wy": fxs(cut(idx.T.ravel())), "band": fxs(cut(got)), "wband": fxs(cut(want)),
                    "labels": bool(len(text) == dim and all(t.startswith(n) for t, n in zip(text, names)) and (level is None or all("%.0f%%" % (level * 100) in t for t in text))), "case": "%s s=%d" % (c, s)})
        plt.close(fig)
    # the perturbed laws
    for j in range(dim):
        k = (s + j) % nd
        m, sd = laws[j].getMean()[0], laws[j].getStandardDeviation()[0]
        unif = laws[j].getImplementation().getClassName() == "Uniform"
        name = c["kind"] + ("_uniform" if unif else "_normal")
        w = 12 * max(sd, math.sqrt(dv[k, j]) if c["kind"] == "variance" else sd)
        lo, hi = (laws[j].getRange().getLowerBound()[0], laws[j].getRange().getUpperBound()[0]) if unif else (m - w, m + w)
        e = (hi - lo) * 1e-7 if unif else 0.0
        num = 2001
        fig, ax = o.drawMarginal1DPDF(j, k, True, None, lo + e, hi - e, num)
        lines = [l for l in ax.get_lines() if len(l.get_xdata()) == num]
        x, y = np.ravel(lines[0].get_xdata()), np.ravel(lines[0].get_ydata())
        f = density(c["kind"], laws[j], dv[k, j])
        par = integrate.simpson(y * (x - m), x=x) if c["kind"] == "mean" else integrate.simpson(y * (x - m) ** 2, x=x)
        q = sd if c["kind"] == "mean" else sd**2
        tol = {"mean_normal": 1e-5, "mean_uniform": 1e-5, "variance_normal": 1e-5, "variance_uniform": 2e-3}[name]
        at = np.linspace(0, num - 1, 41).astype(int)
        other = [l for l in ax.get_lines()[1:] if len(l.get_xdata()) > 10]
        ox, oy = (np.ravel(other[0].get_xdata()), np.ravel(other[0].get_ydata())) if other else (np.array([]), np.array([float("nan")]))
        oat = np.linspace(1, len(ox) - 2, 15).astype(int) if len(ox) else []
        evs.append({"op": "law", "law": name, "mass": fx(integrate.simpson(y, x=x)), "par": fx(float(np.clip(par / q, -1e6, 1e6))), "want": fx((dv[k, j] - (m if c["kind"] == "mean" else 0)) / q),
                    "tol": int(tol * 1e9), "pdf": fxs(y[at] * sd), "ref": fxs(f(x[at]) * sd), "orig": fxs([oy[t] * sd for t in oat]), "oref": fxs([laws[j].computePDF([ox[t]]) * sd for t in oat]), "case": "%s s=%d" % (c, s)})
        plt.close(fig)
    evs.append({"op": "refused", "what": "labels", "ok": call(o.drawIndices, 0.9, ["a"] * (dim + 1))[0]})
    plt.close("all")
    return evs


def spread(case):
    """standard deviation of the index between runs against the half width of its interval"""
    s, kind = case
    law = ot.JointDistribution([ot.Normal(0, 1), ot.Uniform(-1, 1)])
    d = {"mean": [0.5, -0.3], "variance": [1.5, 0.6]}[kind]
    D = [[d[0], 0.3 if kind == "mean" else 0.45], [d[1], -0.2 if kind == "mean" else 0.25]]
    vals, half = [], []
    for k in range(150 if kind == "mean" else 40):
        # (a multiple of 12 plus 1: always the same threshold, always as many points)
        res, _ = monte_carlo(law, "GreaterOrEqual", 12 * (s + k) + 1, 1000, 20)
        c = dict(kind=kind, scaled=False, s=1)
        o = make(c, res, law, D)
        o.run()
        vals.append(np.array(o.getIndices()).ravel())
        half.append(np.array([(t[:, 1] - t[:, 0]) / 2 for t in map(np.array, o.computeConfidenceInterval(0.6827))]).T.ravel())
    ratio = np.std(vals, axis=0, ddof=1) / np.sqrt(np.mean(np.square(half), axis=0))
    return [{"op": "same", "what": "spread_between_runs", "a": fxs(ratio), "b": fxs(np.ones(len(ratio))), "tol": int(5.5 * 1.2 / math.sqrt(2 * (len(vals) - 1)) * 1e9)}]


def refusals(case):
    law = ot.JointDistribution([ot.Normal(0, 1), ot.Uniform(-1, 1)])
    res, _ = monte_carlo(law, "Greater", 1, 200, 10)
    bare, _ = monte_carlo(law, "Greater", 1, 200, 10, memo=False)
    corr = ot.CorrelationMatrix(2)
    corr[0, 1] = 0.5
    dep = ot.JointDistribution([ot.Normal(0, 1), ot.Uniform(-1, 1)], ot.NormalCopula(corr))
    evs = []

    def ev(op, what, f, *a):
        evs.append({"op": op, "what": what, "ok": call(f, *a)[0]})
    for cls, d in ((P.PLIMeanBase, 0.1), (P.PLIVarianceBase, 0.4)):
        ev("accepted", "plain", cls, res, law, [d])
        ev("refused", "without_history", cls, bare, law, [d])
        ev("refused", "dependent_inputs", cls, res, dep, [d])
        ev("refused", "shape_of_deltas", cls, res, law, [[d, d, d]])
        o = cls(res, law, [d])
        ev("refused", "integration", o.setGaussKronrod, 3)
        ev("accepted", "integration", o.setGaussKronrod, ot.GaussKronrod(80, 1e-8, ot.GaussKronrodRule(ot.GaussKronrodRule.G7K15)))
        o.run()
        bad = cls(res, ot.JointDistribution([ot.Normal(0, 1), ot.Triangular(-1, 0, 1)]), [d])
        ev("refused", "other_laws", bad.run)
    for d in ([0.0], [-0.5], [0.4, -0.1], [[0.3, 0.0]]):
        ev("refused", "variance_not_positive", P.PLIVarianceBase, res, law, d)
        ev("accepted", "negative_mean", P.PLIMeanBase, res, law, d)
        ev("accepted", "decrease_of_variation", P.PLIVarianceBase, res, law, d, True)
    return evs


def run(ctx):
    pick = ctx.pick
    inv = dict(invariants=["Neutral", "SignOfIndex", "Antisymmetric", "Increasing", "Partition"], properties=["OnlyFailures"], timeout=900)
    names = ["Less", "LessOrEqual", "Greater", "GreaterOrEqual"]
    sets = dict(Ops="{%s}" % ", ".join('"%s"' % o for o in names), Kinds='{"mean", "variance"}', Scales="BOOLEAN", Shapes='{"shared", "each"}',
                Laws='{<<"N">>, <<"U">>, <<"N", "U">>, <<"U", "U">>, <<"U", "N", "N">>, <<"N", "N">>}')
    cfg = ctx.cases("Pli", constants=dict(sets, Unit="2", Weights="{0}", MaxN="0"), **inv)
    ctx.cases("Pli", constants=dict(sets, Laws='{<<"N">>}', Kinds='{"mean"}', Scales="{FALSE}", Shapes='{"each"}', Unit="2", Weights="0..5", MaxN=str(pick(4, 5))), **inv)
    cases = []
    for rep in range(pick(2, 20)):
        for i, c in enumerate(cfg):
            s = int(ctx.rng.randrange(1 << 20))
            n = (60, 200, 400, 1000)[s % 4] if "U" not in c["laws"] or c["kind"] == "mean" else (60, 200)[s % 2]
            cases.append({"c": dict(c), "s": s, "n": n, "shown": pick(1, 3), "block": (1, 10, 4)[s % 3]})
    ctx.rng.shuffle(cases)
    ctx.extra["configurations"] = len(cfg)
    traces = ctx.replay(play, cases, limit=200) + ctx.replay(refusals, [0], limit=100)
    traces += ctx.replay(spread, [(i * 1000 + 7, k) for i in range(pick(1, 6)) for k in ("mean", "variance")], limit=600)
    flat = [e for t in traces for e in t]
    ctx.extra["studies"] = sum(e["op"] == "study" for e in flat)
    ctx.extra["indices"] = sum(len(e["x"]) for e in flat if e["op"] == "study")
    ctx.extra["indices_of_unchanged_laws"] = sum(x["neutral"] for e in flat if e["op"] == "study" for x in e["x"])
    ctx.extra["runs_without_failure_skipped"] = sum(not t for t in traces)
    ctx.sample(cases[0])
    ctx.validate("PliTrace", traces)
    good = next(t for t in traces if any(e["op"] == "study" and len(e["x"]) > 1 and not e["x"][0]["neutral"] for e in t) and any(e["op"] == "drawn" for e in t))

    def bad(f, op="study"):
        t = copy.deepcopy(good)
        f(next(e for e in t if e["op"] == op))
        ctx.must_reject("PliTrace", [t])

    bad(lambda e: e["x"][0].__setitem__("got", fx(0.123)))
    bad(lambda e: e["x"][0].__setitem__("index", fx(9.0)))
    bad(lambda e: e.__setitem__("op_", {"Less": "LessOrEqual", "LessOrEqual": "Less", "Greater": "GreaterOrEqual", "GreaterOrEqual": "Greater"}[e["op_"]]))
    bad(lambda e: e["x"][0]["lo"].reverse())
    bad(lambda e: e["y"].__setitem__(0, fx(9.0)), "drawn")
    return ctx.finish()
