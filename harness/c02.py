"""C02 Box-Cox."""
import copy
import math

import numpy as np
import openturns as ot

import linref as R
import studies as S
import otpod
from common import call, fx, fxs

FAR = -9999
KINDS = ("binomial", "gauss", "kernel", "qr", "chaos", "kriging", "adaptive", "analysis")


def data(s, n, sign):
    """integer signals; sign: 'pos' all positive, 'below' all negative, 'neg' some kept signals negative, 'low' only censored ones"""
    r = np.random.RandomState(s)
    x = np.round(r.uniform(0.1, 0.8, (n, 2)), 4)
    x[:, 1] = np.round(r.uniform(-1, 1, n), 4)
    y = np.round(60 + 500 * x[:, 0] + 20 * x[:, 1] + 8 * r.randn(n)).astype(int)
    if sign == "neg":
        y = y - 250
    if sign == "low":
        y = y - 200
    if sign == "below":
        y = y - 700
    return x, y


def make(kind, x, y, det, noise, sat, box):
    n = len(y)
    Y = np.asarray(y, float).reshape(-1, 1)
    if kind == "analysis":
        return otpod.UnivariateLinearModelAnalysis(x[:, :1], Y, noise, sat, ot.NormalFactory(), box)
    X = x if kind in ("chaos", "kriging", "adaptive") else x[:, :1]
    kw = {"model": ot.SymbolicFunction(["a", "b"], ["a"])} if kind == "adaptive" else {}
    if kind == "chaos":
        kw["degree"] = 2
    return S.build(kind, X, Y, det, noise, sat, box, **kw)


def answers(kind, o, grid, cl=True):
    """answers that do not depend on the scale"""
    if kind == "analysis":
        vals = [o.getIntercept(), o.getSlope(), o.getStandardError(), o.getR2(), o.getKolmogorovPValue(), o.getBreuschPaganPValue(),
                o.getZeroMeanPValue(), o.getAndersonDarlingPValue()]
        out = []
        for v in vals:
            out += [float(t) for t in np.atleast_1d(np.array(v, float))]
        out += [float(t) for t in np.array(o.getResiduals()).ravel()]
        return [float(np.arcsinh(v)) for v in out]      # relative for large values
    out = S.values(o.getPODModel(), grid)
    if cl:
        for c in (0.8, 0.95):
            out += S.values(o.getPODCLModel(c), grid)
    out += S.sizes_of(o) if cl else S.sizes_of(o, ((0.5, None), (0.9, None)))
    if hasattr(o, "getQ2"):
        out.append(float(o.getQ2()))
    if hasattr(o, "getR2"):
        out.append(float(o.getR2(0.5) if kind == "qr" else o.getR2()))
    return out


def do(case):
    kind, s, sign, cens, lam, n = case
    x, y = data(s, n, sign)
    q = np.sort(y)
    noise = sat = None
    if "n" in cens or sign == "low":
        noise = int(q[int((0.1 if sign in ("neg", "below") else 0.3) * n)]) if sign != "low" else max(1, int(q[int(0.3 * n)]))
    if "s" in cens:
        sat = int(q[int(0.9 * n)])
    k = np.ones(n, bool)
    if noise is not None:
        k &= y > noise
    if sat is not None:
        k &= y < sat
    if noise is not None and sign in ("neg", "below"):
        noise = int(y[k].min()) - 1       # stays within the domain of the transformation
    det = int(np.median(y[k]))
    shift = 100 - int(y[k].min()) if y[k].min() < 0 else 0
    grid = np.linspace(x[k, 0].min(), x[k, 0].max(), 7)[1:-1]
    ints = lam in (-1.0, 1.0, 2.0)

    def fixed(l):
        T = ot.BoxCoxTransform([l])

        def t(v):
            return float(T([v + float(shift)])[0])

        z = np.array([t(v) if kk else 0.0 for v, kk in zip(y, k)])
        tn = None if noise is None else t(noise)
        ts = None if sat is None else t(sat)
        if tn is not None:
            z[y <= noise] = tn - 1.0
        if ts is not None:
            z[y >= sat] = ts + 1.0
        return z, t(det), tn, ts

    evs = []
    if lam is None:
        ok, o = call(make, kind, x, y, det, noise, sat, True)
        if not ok:       # no estimate for these signals
            return [{"op": "norun"}]
        if kind in ("kernel", "qr") and cens:
            # the censored likelihood of a bootstrap sample may have no starting point, or its thresholds no transform
            ok, v = call(S.run, o, s)
            if not ok:
                return [{"op": "norun"}]
        elif kind != "analysis":
            S.run(o, s)
        lhat = o.getBoxCoxParameter()
        v = np.asarray(y[k], float) + shift

        def ll(l):
            return -0.5 * len(v) * math.log(np.var(R.boxcox(v, l))) + (l - 1) * np.log(v).sum()

        best = max(ll(l) for l in np.linspace(-4, 6, 1001))
        evs.append({"op": "best", "got": fx(ll(lhat)), "best": fx(best), "lam": str(lhat), "case": str(case)})
        z, td, tn, ts = fixed(lhat)
        lam_used = lhat
        cl = kind not in ("qr", "kernel")       # each bootstrap sample has its own parameter
    else:
        o = make(kind, x, y, det, noise, sat, (float if s % 2 else np.float64)(lam))
        if kind in ("kernel", "qr") and cens:
            ok, v = call(S.run, o, s)
            if not ok:
                return [{"op": "norun"}]
        elif kind != "analysis":
            S.run(o, s)
        lam_used = lam
        evs.append({"op": "lambda", "got": fx(o.getBoxCoxParameter()), "want": fx(lam), "case": str(case)})
        cl = kind not in ("qr", "kernel") or shift == 0
    z, td, tn, ts = fixed(lam_used)
    p = make(kind, x, z, td, tn, ts, False)
    if kind != "analysis":
        S.run(p, s)
    b = p.getBoxCoxParameter()
    evs.append({"op": "lambda", "got": fx(float("nan") if b is None else b), "want": fx(float("nan")), "case": str(case)})
    nan = fx(float("nan"))
    evs.append({"op": "input", "y": [int(v) for v in y], "noise": FAR if noise is None else noise, "sat": FAR if sat is None else sat,
                "det": det, "lam": int(lam) if ints else 1, "exact": ints, "shift": shift, "z": fxs(z), "tdet": fx(td),
                "tnoise": nan if tn is None else fx(tn), "tsat": nan if ts is None else fx(ts)})
    raw, ref = answers(kind, o, grid, cl), answers(kind, p, grid, cl)
    evs.append({"op": "same", "kind": kind, "raw": fxs(raw), "ref": fxs(ref), "tol": 1000000 if kind in ("qr",) else 300000, "case": str(case)})
    if lam is None and kind in ("binomial", "gauss", "qr", "chaos", "kriging", "analysis"):
        # given explicitly, the estimated parameter changes nothing
        g = make(kind, x, y, det, noise, sat, float(lam_used))
        if kind != "analysis":
            S.run(g, s)
        evs.append({"op": "same", "kind": kind + "_given", "raw": fxs(answers(kind, g, grid, cl)), "ref": fxs(raw), "tol": 1000000 if kind == "qr" else 300000,
                    "case": str(case)})
        evs.append({"op": "lambda", "got": fx(g.getBoxCoxParameter()), "want": fx(lam_used), "case": str(case)})
    return evs


def do_agree(case):
    s, sign, cens, n = case
    lams = []
    for kind in KINDS:
        x, y = data(s, n, sign)
        q = np.sort(y)
        noise = max(1, int(q[int(0.3 * n)])) if cens else None
        o = make(kind, x, y, int(np.median(y)), noise, None, True)
        if kind != "analysis":
            S.run(o, s)
        lams.append(o.getBoxCoxParameter())
    return [{"op": "agree", "lams": fxs(lams), "case": str(case)}]


def run(ctx):
    ctx.tlc("BoxCox", constants={"Vals": ctx.pick("{-3, -1, 1, 2, 5}", "{-4, -3, -1, 1, 2, 3, 6}"), "Size": ctx.pick("3", "4"),
                                 "Thresholds": ctx.pick("{-2, 1, 3}", "{-2, 1, 2, 4}"), "Lambdas": "{-1, 1, 2}", "Far": "-9999"},
            invariants=["Positive", "OneSignalEach", "ShiftOnlyWhenNegative", "SameSide"], workers=8, timeout=3000)
    cases = []
    for rep in range(ctx.pick(1, 8)):
        for kind in KINDS:
            n = {"qr": 60, "kriging": 30, "adaptive": 30, "chaos": 50}.get(kind, 40)
            for sign, cens in (("pos", ""), ("pos", "n"), ("pos", "s"), ("pos", "ns"), ("neg", ""), ("neg", "s"), ("neg", "n"), ("low", "n"), ("low", "ns"), ("below", ""), ("below", "s"), ("below", "ns")):
                for lam in (2.0, -1.0, 0.0, None) if not ctx.thorough else (-1.0, 1.0, 2.0, 0.0, 0.5, -0.3, 0.37, None):
                    cases.append((kind, 11 + 7 * rep + len(cases) % 5, sign, cens, lam, n))
            cases.append((kind, 40 + rep, "pos", "", 0.37, n))
            cases.append((kind, 41 + rep, "neg", "", 0.5, n))
    ctx.extra["studies"] = len(cases)
    traces = ctx.replay(do, sorted(cases, key=lambda c: c[0] not in ("kriging", "adaptive")), limit=300)
    traces += ctx.replay(do_agree, [(s, sign, cens, 40) for s in range(ctx.pick(2, 12)) for sign, cens in (("pos", False), ("neg", False), ("below", False), ("pos", True))])
    dead = [t for t in traces if t and t[0]["op"] == "norun"]
    ctx.extra["studies_without_run"] = len(dead)
    traces = [t for t in traces if not (t and t[0]["op"] == "norun")]
    if len(dead) > len(cases) // 30:
        traces.append([{"op": "crash", "case": "kernel", "exc": "studies do not run"}])
    ctx.sample(cases[3])
    ctx.sample({k: v for k, v in traces[0][-1].items() if k != "z"})
    ctx.validate("BoxCoxTrace", traces)
    pool = [e for t in traces for e in t]
    e = copy.deepcopy(next(e for e in pool if e["op"] == "same"))
    e["raw"][1] = fx(e["raw"][1][0] + e["raw"][1][1] / 1e9 + 0.01)
    ctx.must_reject("BoxCoxTrace", [[e]])
    e = copy.deepcopy(next(e for e in pool if e["op"] == "input" and e["exact"]))
    e["tdet"] = fx(e["tdet"][0] + 1.0)
    ctx.must_reject("BoxCoxTrace", [[e]])
    ctx.assumptions.append("each bootstrap sample of a quantile regression is transformed as a data set of its own")
