"""C16 linear analysis: one consistent set of values."""
import copy
import logging
import os
import re
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
from scipy import stats

import linref as R
import otpod
import studies as S
from common import call, fx, fxs

TESTS = ("Kolmogorov", "AndersonDarling", "CramerVonMises", "ZeroMean", "BreuschPagan", "HarrisonMcCabe", "DurbinWatson")
GET = dict([(t, "get%sPValue" % t) for t in TESTS], Intercept="getIntercept", Slope="getSlope", StandardError="getStandardError", R2="getR2")
LAWS = {"normal": [None, ot.NormalFactory], "other": [ot.LogisticFactory, ot.LaplaceFactory, ot.KernelSmoothing, ot.GumbelFactory, ot.StudentFactory, ot.UniformFactory]}
LABEL = [("Box Cox parameter", "BoxCox"), ("Standard error of the estimate", "StandardError"), ("Level", "Level"), ("R2", "R2"),
         ("Fitted distribution (uncensored)", "LawUncensored"), ("Fitted distribution (censored)", "LawCensored"), ("Kolmogorov", "Kolmogorov"),
         ("Anderson Darling", "AndersonDarling"), ("Cramer Von Mises", "CramerVonMises"), ("p-value", "ZeroMean"), ("Breush Pagan", "BreuschPagan"),
         ("Harrison McCabe", "HarrisonMcCabe"), ("Durbin Watson", "DurbinWatson")]
WARN = [("Box Cox transformation", "box_cox"), ("quantile regression", "quantile_regression"), ("assuming the residuals", "normal_assumed")]


# ------------------------------------------------------------ reference values
def durbin_watson(x, e):
    """two-sided normal approximation from the exact moments of r'Ar / r'r"""
    n = len(x)
    X = np.c_[np.ones(n), x]
    M = np.eye(n) - X @ np.linalg.solve(X.T @ X, X.T)
    D = np.diff(np.eye(n), axis=0)
    B = M @ (D.T @ D)
    k = n - 2
    t1, t2 = np.trace(B), np.trace(B @ B)
    m, v = t1 / k, 2 * (k * t2 - t1**2) / (k**2 * (k + 2))
    d = (np.diff(e) ** 2).sum() / (e**2).sum()
    return 2 * stats.norm.sf(abs(d - m) / np.sqrt(v))


def breusch_pagan(x, e):
    w = e**2
    X = np.c_[np.ones(len(x)), x]
    fit = X @ np.linalg.lstsq(X, w, rcond=None)[0]
    # Koenker's statistic on squares centred by their mean
    return stats.chi2.sf(len(x) * ((fit - w.mean()) ** 2).sum() / ((w - w.mean()) ** 2).sum(), 1)


def harrison_mccabe(e, s, size=20000):
    r = np.random.RandomState(s)
    n, b = len(e), len(e) // 2
    z = r.randn(size, n)
    z = z - z.mean(axis=1, keepdims=True)
    h = (e[:b] ** 2).sum() / (e**2).sum()
    return float(np.mean((z[:, :b] ** 2).sum(axis=1) / (z**2).sum(axis=1) <= h))


def tests(x, e, law, s):
    sample = ot.Sample(e.reshape(-1, 1))
    t = np.mean(e) / np.sqrt(np.var(e, ddof=1) / len(e))
    return {"Kolmogorov": ot.FittingTest.Kolmogorov(sample, law, 0.05).getPValue(),
            "AndersonDarling": ot.NormalityTest.AndersonDarlingNormal(sample).getPValue(),
            "CramerVonMises": ot.NormalityTest.CramerVonMisesNormal(sample).getPValue(),
            "ZeroMean": float(2 * stats.t.sf(abs(t), len(e) - 1)), "BreuschPagan": float(breusch_pagan(x, e)),
            "HarrisonMcCabe": harrison_mccabe(e, s), "DurbinWatson": float(durbin_watson(x, e))}


# ---------------------------------------------------------------- table and file
def cells_of(lines):
    """[(row, [uncensored, censored] texts)], header, laws, warnings"""
    out, laws, warn, head, interval = [], [], [], "", False
    for l in lines:
        t = l[0].strip()
        if t.startswith("Confidence interval on"):
            interval = True
        elif t.startswith("Quality of"):
            interval = False
        elif t.startswith("Warning :"):
            warn.append(t)
        elif t == "" and l[1].strip() == "Uncensored":
            head = (l[1].strip() + " " + l[2].strip()).strip()
        elif ":" in t:
            key = next((k for n, k in LABEL if t.startswith(n)), None)
            if t.startswith("Intercept coefficient"):
                key = "IntervalIntercept" if interval else "Intercept"
            if t.startswith("Slope coefficient"):
                key = "IntervalSlope" if interval else "Slope"
            key = key or t
            if key == t and laws and out[-1][0].startswith("Law"):      # the text of a law on several lines
                laws[-1] += "".join(l)
                continue
            if key.startswith("Law"):
                laws.append(l[1].strip())
            out.append((key, l[1].strip(), l[2].strip()))
        elif t and laws and out[-1][0].startswith("Law"):
            laws[-1] += "".join(l)
    return out, head, ["".join(v.split()).removesuffix("Distributionfittingtest") for v in laws], warn


def parse_table(t):
    lines = []
    for l in t.split("\n"):
        if l.startswith("Fitted distribution") and ":" in l:
            a, b = l.split(":", 1)
            lines.append([a + ":", b, ""])
        elif l.startswith("Warning"):
            lines.append([l, "", ""])
        else:
            a, b = l.split(":", 1) if ":" in l else (l[:47], l[47:])
            # values are aligned on the right, but a long one goes past its column
            v = re.findall(r"\[[^\]]*\]|Not enabled|\S+", b) + ["", ""]
            lines.append([a + ":" if ":" in l else a, v[0], v[1]])
    return cells_of(lines)


def parse_file(t):
    return cells_of([(l.split("\t") + ["", "", ""])[:3] for l in t.split("\n")])


def numbers(t):
    return fxs([float(v) for v in re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?|nan", t)])


def kinds(texts):
    out = []
    for t in texts:
        out += [k for n, k in WARN if n in t]
    return sorted(out)


class Handler(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.texts = []

    def emit(self, r):
        self.texts.append(r.getMessage())


def build(*a):
    h = Handler()
    root = logging.getLogger()
    root.addHandler(h)
    logging.disable(logging.NOTSET)
    try:
        return otpod.UnivariateLinearModelAnalysis(*a), h.texts
    finally:
        logging.disable(logging.CRITICAL)
        root.removeHandler(h)


def judge(o, texts, x, y, noise, sat, lawf, box, s):
    """events of one analysis: its values against the references, its table, file and warnings against its values"""
    cens = noise is not None or sat is not None
    xu, yu, xn, xs = R.split(x, y, noise, sat)
    lam = o.getBoxCoxParameter()
    N, T = noise, sat
    Y = np.asarray(y, float)
    if box is not False:
        shift = 0.0 if yu.min() >= 0 else -yu.min() + 100
        N = None if noise is None else float(R.boxcox(noise + shift, lam))
        T = None if sat is None else float(R.boxcox(sat + shift, lam))
        lo, hi = (-np.inf if noise is None else noise), (np.inf if sat is None else sat)
        keep = (y > lo) & (y < hi)
        Y = np.where(keep, R.boxcox(np.where(keep, y + shift, 1.0), lam), np.where(y <= lo, -np.inf, np.inf))
    fin = Y[np.isfinite(Y)]
    collapse = max(float(np.std(fin) / np.abs(fin).max()), 1e-16)    # extreme Box-Cox parameters leave few digits
    if collapse < 1e-8:
        return []
    f = {"u": R.fit(*R.split(x, Y, N, T)[:2])}
    if cens:
        f["c"] = R.fit(x, Y, N, T)
    cols = ["u", "c"] if cens else ["u"]
    got = {k: list(getattr(o, g)()) for k, g in GET.items()}
    desc = all(len(got[k]) == len(cols) for k in got) and all(
        [d for d in getattr(o, g)().getDescription()][c].endswith(("uncensored case", "censored case")[c]) for g in GET.values() for c in range(len(cols)))
    vals, res, rref, rtol, law, lref = [], [], [], [], [], []
    reslaws = o.getResidualsDistribution()
    ores = np.array(o.getResiduals())
    for c, col in enumerate(cols):
        r = f[col]
        sc = max(float(np.std(r["y"])), 1e-6)
        # the censored optimum is only sought to about 1e-4 of the scale by the study
        t = 1e-7 if col == "u" else 2e-3
        d = lawf() if lawf is not None else ot.NormalFactory()
        e = r["res"]
        ref = dict(Intercept=r["b0"], Slope=r["b1"], StandardError=r["s"], R2=float(R.r2(r)))
        mine = ores[:, c]
        rl = d.build(ot.Sample(mine.reshape(-1, 1)))
        # the tests are judged on the residuals of the study, themselves judged below
        ref.update(tests(r["x"], mine, rl, s))
        slope_scale = sc / max(float(np.std(r["x"])), 1e-9)
        tol = dict(Intercept=t * (sc + abs(r["b0"])), Slope=t * (slope_scale + abs(r["b1"])), StandardError=t * sc, R2=1e-7 + 1e-14 / collapse if col == "u" else 5e-3,
                   HarrisonMcCabe=6 * np.sqrt(max(ref["HarrisonMcCabe"] * (1 - ref["HarrisonMcCabe"]), 0.002) * (1 / 1000.0 + 1 / 20000.0)))
        for k in GET:
            q = 1.0 / max(1.0, abs(ref[k]) / 1e3)      # keep within the range of the recorded numbers
            vals.append({"k": k, "f": col, "got": fx(got[k][c] * q if c < len(got[k]) else float("nan")), "ref": fx(ref[k] * q), "tol": int(min(tol.get(k, 1e-6) * q, 0.9) * 1e9) + 2})
        q = 1.0 / sc
        res.append(fxs(mine * q))
        rref.append(fxs(e * q))
        rtol.append(int(t * 5e9) + 10)
        # the law built by the factory on these residuals
        at = list(np.quantile(e, [0.05, 0.3, 0.5, 0.8]))
        law.append(fxs([reslaws[c].computeCDF(v) for v in at] if c < len(reslaws) else []))
        lref.append(fxs([rl.computeCDF(v) for v in at]))
    kept = np.array_equal(np.array(o.getInputSample()).ravel(), x) and np.array_equal(np.array(o.getOutputSample()).ravel(), y) \
        and o.getNoiseThreshold() == noise and o.getSaturationThreshold() == sat
    who = "cens=%s law=%s box=%s s=%s n=%d" % ("".join("ns"[j] for j, v in enumerate((noise, sat)) if v is not None), lawf.__name__ if lawf else None, box, s, len(x))
    evs = [{"op": "values", "cens": cens, "vals": vals, "named": bool(desc), "res": res, "rref": rref, "rtol": rtol, "law": law, "lref": lref, "kept": bool(kept), "case": who}]
    # what is shown
    u = f["u"]
    n = len(u["x"])
    sx = u["s"] / np.sqrt(((u["x"] - u["x"].mean()) ** 2).sum())
    s0 = u["s"] * np.sqrt(1.0 / n + u["x"].mean() ** 2 / ((u["x"] - u["x"].mean()) ** 2).sum())
    q = stats.t.ppf(0.975, n - 2)
    want = {k: {"u": fxs(v[:1]), "c": fxs(v[1:])} for k, v in got.items()}
    want["BoxCox"] = {"u": fxs([lam] if box is not False else []), "c": []}
    want["Level"] = {"u": fxs([0.95]), "c": []}
    want["IntervalIntercept"] = {"u": fxs([u["b0"] - q * s0, u["b0"] + q * s0]), "c": []}
    want["IntervalSlope"] = {"u": fxs([u["b1"] - q * sx, u["b1"] + q * sx]), "c": []}
    wlaws = ["".join(str(d).split()) for d in reslaws]
    # numbers too large to be recorded are left out (they are judged above on a relative scale)
    want = {k: v for k, v in want.items() if all(abs(t[0]) < 10**8 for t in v["u"] + v["c"])}
    p = fxs([v for k in list(TESTS) + ["R2"] for v in got[k]])
    normal = reslaws[0].getImplementation().getClassName() == "Normal"
    d = tempfile.mkdtemp(prefix="verif_an_")
    try:
        name = os.path.join(d, "a.txt")
        ok, _ = call(o.saveResults, name)
        saved = open(name).read() if ok else ""
    finally:
        shutil.rmtree(d)
    for w, t, parse in (("table", o.getResults(), parse_table), ("file", saved, parse_file)):
        cells, head, laws, warn = parse(t)
        evs.append({"op": "shown", "w": w, "cens": cens, "head": head, "cells": [{"k": k, "u": [] if k.startswith("Law") else numbers(a), "c": [] if k.startswith("Law") else numbers(b)} for k, a, b in cells],
                    "want": want, "laws": laws, "wlaws": wlaws, "case": who})
        evs.append({"op": "warn", "w": w, "got": kinds(warn), "p": p, "box": box is not False, "normal": normal, "case": who})
    evs.append({"op": "warn", "w": "log", "got": kinds(texts), "p": p, "box": box is not False, "normal": normal, "case": who})
    return evs


def do_ints(chunk):
    evs = []
    for c, s in chunk:
        x, y = np.array(c["x"], float), np.array(c["y"], float)
        S.seed(s)
        o, texts = build(x.reshape(-1, 1), y.reshape(-1, 1))
        n = len(x)
        det = n * (x**2).sum() - x.sum() ** 2
        tss = n * (y**2).sum() - y.sum() ** 2
        res = np.array(o.getResiduals()).ravel() * det
        b0, b1, s2, r2 = o.getIntercept()[0] * det, o.getSlope()[0] * det, o.getStandardError()[0] ** 2 * n * (n - 2) * det, o.getR2()[0] * det * tss
        evs.append({"op": "ints", "x": c["x"], "y": c["y"], "b0": fx(b0), "b1": fx(b1), "s2": fx(s2), "r2": fx(r2), "res": fxs(res)})
    return evs


def make(case):
    """data of a case"""
    c, n, s = case["c"], case["n"], case["s"]
    r = np.random.RandomState(7000 + s)
    x = np.round(r.uniform(0.1, 3.0, n), 3)
    if s % 4 == 1:
        x = np.round(x * 4) / 4          # repeated defect sizes
    slope = (4.0, 2.0, -3.0, 0.3)[s % 4]
    noise = [lambda: r.randn(n), lambda: r.gumbel(size=n), lambda: r.randn(n) * x, lambda: r.standard_t(3, n)][(s // 4) % 4]()
    y = 9.0 + slope * x + noise * (1.0, 0.2, 0.5)[s % 3]
    if c["box"] != "none" and s % 3 == 1:
        y = y - 10.0                      # negative signals: shifted
    if s % 5 == 2:
        o = np.argsort(x)
        x, y = x[o], y[o]
    y = np.round(y, 3)
    N = T = None
    if c["cens"]:
        k = s % 3
        N = float(np.round(np.quantile(y, 0.2), 3)) if k in (0, 2) else None
        T = float(np.round(np.quantile(y, 0.8), 3)) if k in (1, 2) else None
    box = {"none": False, "estimated": True, "given": (0.5, 0.0, -1.0, 2.0)[s % 4]}[c["box"]]
    laws = LAWS[c["law"]]
    return x, y, N, T, laws[s % len(laws)], box


def do_config(case):
    x, y, N, T, lawf, box = make(case)
    cont = [lambda a: a.reshape(-1, 1), lambda a: a.reshape(-1, 1).tolist(), lambda a: ot.Sample(a.reshape(-1, 1)), lambda a: a][case["s"] % 4]
    S.seed(case["s"])
    o, texts = build(cont(x), cont(y), N, T, None if lawf is None else lawf(), box)
    evs = judge(o, texts, x, y, N, T, lawf, box, case["s"])
    if case["again"]:       # the same data in other units: same fit, same tests; nothing read changes the answers
        S.seed(case["s"])
        a, b, p, q = 3.0, -2.0, 1.7, 0.4
        if box is False:
            t = lambda v: None if v is None else a * v + b
            o2, _ = build((p * x + q).reshape(-1, 1), (a * y + b).reshape(-1, 1), t(N), t(T), None if lawf is None else lawf(), box)
            for k in ("R2",) + tuple(n for n in TESTS if n != "HarrisonMcCabe"):
                if lawf is not None and k == "Kolmogorov" and lawf is not ot.NormalFactory:
                    continue
                for c in range(len(getattr(o, GET[k])())):
                    evs.append({"op": "same", "what": "units_do_not_matter_" + k, "a": fxs([getattr(o2, GET[k])()[c]]), "b": fxs([getattr(o, GET[k])()[c]]), "tol": 20000 if c == 0 else 20000000})
        before = {k: list(getattr(o, g)()) for k, g in GET.items()}
        for m in ("uncensored", "censored")[:1 + (N is not None or T is not None)]:
            o.drawLinearModel(m)
            o.drawResiduals(m)
            o.drawResidualsQQplot(m)
            o.drawResidualsDistribution(m)
        plt.close("all")
        o.getResults()
        evs.append({"op": "same", "what": "reading_changes_nothing", "a": fxs([v for k in GET for v in getattr(o, GET[k])()]), "b": fxs([v for k in GET for v in before[k]]), "tol": 1})
    return evs


def run(ctx):
    designs = ctx.pick("{<<0, 1, 2, 3, 0, 1, 2, 3>>, <<3, 1, 0, 2, 2, 1, 3, 0>>}", "{<<0, 1, 2, 3, 0, 1, 2, 3>>, <<3, 1, 0, 2, 2, 1, 3, 0>>, <<0, 0, 1, 4, 2, 1, 1, 0, 3>>, <<5, 0, 0, 0, 1, 0, 1, 0>>}")
    cs = ctx.cases("Analysis", constants={"Designs": designs, "Vals": "{0, 1, 3}"}, invariants=["OneAdvice", "NoCensoredColumn", "SameEverywhere"], timeout=1200)
    data = [c for c in cs if c["kind"] == "data"]
    conf = [c for c in cs if c["kind"] == "config"]
    ctx.rng.shuffle(data)
    items = [(c, k) for k, c in enumerate(data[:ctx.pick(700, 9000)])]
    ctx.extra["integer_data_sets"] = len(items)
    traces = ctx.replay(do_ints, [items[i:i + 25] for i in range(0, len(items), 25)], limit=200)
    cases = []
    for c in conf:
        for k in range(ctx.pick(14, 150)):
            n = (12, 20, 40, 80)[k % 4] if not c["cens"] else (25, 40, 80)[k % 3]
            cases.append({"c": c, "n": n, "s": len(cases) + 13 * k, "again": k % 3 == 0})
    ctx.extra["configurations"] = len(cases)
    traces += ctx.replay(do_config, cases, limit=200)
    ctx.sample(items[3][0])
    ctx.sample(cases[5])
    ctx.validate("AnalysisTrace", traces)
    flat = [e for t in traces for e in t]

    def bad(op, f):
        e = copy.deepcopy(next(e for e in flat if e["op"] == op))
        f(e)
        ctx.must_reject("AnalysisTrace", [[e]])

    bad("ints", lambda e: e["b0"].__setitem__(0, e["b0"][0] + 1))
    bad("values", lambda e: e["vals"][0]["got"].__setitem__(1, (e["vals"][0]["got"][1] + 40000000) % 10**9))
    bad("shown", lambda e: e["cells"].pop(3))
    bad("warn", lambda e: e["got"].append("box_cox"))
    return ctx.finish()
