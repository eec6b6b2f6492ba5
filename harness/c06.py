"""C06 metamodel POD: exceedance frequency of the metamodel over the inputs."""
import copy
import math

import numpy as np
import openturns as ot
from scipy.special import ndtr

import otpod
import studies as S
from common import call, fx, fxs

SIG = 5.5
SIZES = [1, 2, 3, 4, 5]
LAWS = {2: ([-2, 3], [2, 8]), 3: ([-3, 0, 2], [1, 3, 6])}
Z = ot.Normal()


def nt(t):
    """tolerances, in units of 1e-9"""
    if isinstance(t, (list, tuple)):
        return [nt(v) for v in t]
    return int(min(t, 0.9) * 1e9) + 1


def phi(t):
    return ndtr(np.asarray(t, float))


# ------------------------------------------------------------------ exact
def atoms_law(na):
    at, w = LAWS[na]
    return ot.JointDistribution([ot.Uniform(0.5, 5.5), ot.UserDefined([[float(a)] for a in at], [v / 10.0 for v in w])])


_CHAOS = {}


def plane(c, n=40):
    r = np.random.RandomState(11)
    x = np.c_[r.uniform(0.6, 5.4, n), r.uniform(-4, 4, n)]
    x[0], x[1] = (0.5, -4.0), (5.5, 4.0)
    return x, c[0] + c[1] * x[:, 0] + c[2] * x[:, 1]


def do_exact(chunk):
    evs = []
    for kind, na, c in chunk:
        b, det = c["c"], c["det2"] / 2.0
        x, y = plane(b)
        N = 300 if kind == "chaos" else 150
        law = atoms_law(na)
        if kind == "chaos":
            t = S.build("chaos", x, y.reshape(-1, 1), det, degree=1, sim=1, sampling=20)
            S.run(t, 3)
            o = S.build("chaos", x, y.reshape(-1, 1), det, sim=2, sampling=N, sizes=[float(s) for s in SIZES])
            o.setPolynomialChaosResult(t.getPolynomialChaosResult())
        elif kind == "kriging":
            o = S.build("kriging", x, y.reshape(-1, 1), det, sim=4, sampling=N, sizes=[float(s) for s in SIZES])
        else:
            o = S.build("adaptive", x, y.reshape(-1, 1), det, model=None, more=0, sim=4, sampling=N, sizes=[float(s) for s in SIZES], cand=2)
        o.setDistribution(law)
        S.run(o, 17 * na + c["det2"])
        f = o.getPODModel()
        tols = [nt(1e-6 + SIG * math.sqrt(m * (10 - m) / 100.0 / N)) for m in range(11)]
        evs.append({"op": "freq", "kind": kind, "c": b, "det2": c["det2"], "sizes": SIZES, "atoms": LAWS[na][0], "weights": LAWS[na][1],
                    "got": fxs(S.values(f, SIZES)), "tols": tols})
        evs += mids(f, SIZES)
    return evs


def mids(f, sizes):
    evs = []
    for a, b in zip(sizes[:-1], sizes[1:]):
        v = S.values(f, [a, 0.5 * (a + b), b])
        evs.append({"op": "mid", "f": fxs(v)})
    return evs


# -------------------------------------------------------------- references
def design(case, n):
    """Data on a smooth function; three inputs when the law is asked to have a copula."""
    s, dim, noise = case["s"], case["dim"], case["noise"]
    x, y = S.surf_data(n, dim, s, noise, S.shape(s))
    return x, y


def laws(case, x, sizes):
    dim = x.shape[1]
    if case["law"] == "":
        return None
    m = [ot.Uniform(float(min(sizes)), float(max(sizes)))]
    if case["law"] == "shift":
        m += [ot.TruncatedNormal(0.5, 0.3, -1.0, 1.0) for _ in range(dim - 1)]
        return ot.JointDistribution(m)
    m += [ot.Uniform(-1.0, 1.0) for _ in range(dim - 1)]
    R = ot.CorrelationMatrix(dim)
    for i in range(1, dim):
        for j in range(1, i):
            R[i, j] = 0.95
    return ot.JointDistribution(m, ot.NormalCopula(R))


def others(case, law, x, n, s):
    """n draws of the inputs after the first, and the law the study is expected to use"""
    if law is None:
        lo, hi = x.min(axis=0), x.max(axis=0)
        r = np.random.RandomState(1000 + s)
        return lo[1:] + (hi - lo)[1:] * r.rand(n, x.shape[1] - 1)
    S.seed(7000 + s)
    return np.array(law.getSample(n))[:, 1:]


def at(a, rest):
    return np.c_[np.full(len(rest), a), rest]


def tested(x, y, case):
    """threshold, sizes and the kept part of the data"""
    det = float(np.quantile(y, (0.5, 0.65, 0.35)[case["s"] % 3]))
    noise = sat = None
    k = np.ones(len(y), bool)
    if case["cens"]:
        noise, sat = float(np.quantile(y, 0.06)), float(np.quantile(y, 0.96))
        k = (y > noise) & (y < sat)
    return det, noise, sat, k


def boxed(o, y, det, noise, case):
    """signals and threshold in the transformed scale, from the reported parameter"""
    if not case["box"]:
        return y, det
    lam = o.getBoxCoxParameter()
    sh = case.get("shift", 100 - y.min() if y.min() < 0 else 0.0)
    return bc(y + sh, lam), bc(det + sh, lam)


def bc(y, lam):
    return np.log(y) if abs(lam) < 1e-12 else (np.power(y, lam) - 1) / lam


def chaos_study(case):
    n = case["n"]
    x, y = design(case, n)
    det, noise, sat, k = tested(x, y, case)
    o = S.build("chaos", x, y.reshape(-1, 1), det, noise, sat, case["box"], sim=case["sim"], sampling=case["N"])
    xk, yk = x[k], y[k]
    sizes = pick_sizes(xk, case)
    if case["sizes"]:
        o.setDefectSizes(sizes)
    law = laws(case, xk, sizes)
    if law is not None:
        o.setDistribution(law)
    if case["degree"]:
        o.setDegree(case["degree"])
    return o, xk, yk, det, sizes, law


def pick_sizes(xk, case):
    lo, hi = xk[:, 0].min(), xk[:, 0].max()
    if not case["sizes"]:
        return list(np.linspace(lo, hi, 20 if case["kind"] != "adaptive" else 10))
    w = hi - lo
    return [lo + w * t for t in ((0.3, 0.05, 0.6, 0.9, 0.45), (0.5, 0.0, 1.0, 0.7), (0.2, 0.35, 0.4, 0.55, 0.8, 0.95))[case["s"] % 3]]


def do_chaos(case):
    o, xk, yk, det, sizes, law = chaos_study(case)
    if case["box"] and not isinstance(o.getBoxCoxParameter(), float):
        return []
    S.run(o, case["s"])
    res = o.getPolynomialChaosResult()
    meta = res.getMetaModel()
    yt, dt = boxed(o, yk, det, None, case)
    n = len(yk)
    pred = np.array(meta(xk)).ravel()
    basis = res.getReducedBasis()
    nb = len(basis)
    tr = res.getTransformation()
    B = np.column_stack([np.array(basis[i](tr(xk))).ravel() for i in range(nb)])
    sse = float(np.sum((yt - pred) ** 2))
    sd = math.sqrt(sse / (n - nb - 1))
    evs = []
    cs = sorted(sizes)
    f = o.getPODModel()
    rest = others(case, law, xk, 6000, case["s"])
    ref, tol = [], []
    for a in cs:
        t = phi((np.array(meta(at(a, rest))).ravel() - dt) / sd)
        p = float(t.mean())
        ref.append(p)
        tol.append(SIG * math.sqrt(max(p * (1 - p), 1.0 / case["N"]) / case["N"] + t.var() / 6000) + 1e-5)
    evs.append({"op": "ref", "what": "exceedance", "kind": "chaos", "got": fxs(S.values(f, cs)), "ref": fxs(ref), "tol": nt(tol), "case": str(case)})
    evs += mids(f, cs)
    # quality
    H = B @ np.linalg.solve(B.T @ B, B.T)
    loo = (yt - pred) / (1 - np.diag(H))
    r2 = 1 - sse / float(np.sum((yt - yt.mean()) ** 2))
    q2 = 1 - float(np.mean(loo ** 2)) / float(np.var(yt, ddof=1))
    evs.append({"op": "ref", "what": "quality", "kind": "chaos", "got": fxs([o.getR2(), o.getQ2()]), "ref": fxs([r2, q2]),
                "tol": nt([2e-3 if case["box"] else 1e-7] * 2), "case": str(case)})
    # law of the coefficients
    cd = o.getCoefficientDistribution()
    G = np.linalg.inv(B.T @ B)
    C = np.array(cd.getCovariance())
    s2 = float(np.trace(C) / np.trace(G))
    dof = n - nb - 1
    u = s2 / (sd * sd)
    chi = ot.ChiSquare(dof)
    evs.append({"op": "used", "what": "residual_variance_law", "ok": bool(dof / chi.computeQuantile(1 - 1e-8)[0] <= u <= dof / chi.computeQuantile(1e-8)[0]), "case": str(case)})
    evs.append({"op": "ref", "what": "coefficients", "kind": "chaos", "got": fxs(list(cd.getMean()) + list(C.ravel() / s2)),
                "ref": fxs(list(np.array(res.getCoefficients()).ravel()) + list(G.ravel())),
                "tol": nt([1e-6 * (1 + abs(v)) for v in np.array(res.getCoefficients()).ravel()] + [1e-6 + 1e-4 * float(np.abs(G).max())] * G.size)})
    # confidence curve
    m = 1500
    S.seed(case["s"] + 5)
    K = np.array(cd.getSample(m))
    sub = rest[:3000]
    for a in cs[1:-1:2]:
        Ba = np.column_stack([np.array(basis[i](tr(at(a, sub)))).ravel() for i in range(nb)])
        P = phi((K @ Ba.T - dt) / sd).mean(axis=1)
        evs += ranks("chaos", P, case["N"], o, a, case, np.random.RandomState(case["s"]))
    lb = o.getPolynomialChaosResult().getDistribution()
    given(evs, o, law, cs, xk, lb if law is None else None)
    return evs


def ranks(kind, P, N, o, a, case, r):
    """rank of the confidence curve among reference simulations; every simulation is itself estimated on N draws"""
    evs = []
    n = case["sim"]
    Q = np.clip(P + r.randn(len(P)) * np.sqrt(P * (1 - P) / N), 0, 1)
    if Q.std() < 3.0 / N:
        return evs
    for c in (0.5, 0.8, 0.95):
        v = S.values(o.getPODCLModel(c), [a])[0]
        w = 1.0 / N
        rk = 0.5 * (float(np.mean(Q < v - w)) + float(np.mean(Q < v + w)))
        slack = 0.5 * (float(np.mean(Q < v + w)) - float(np.mean(Q < v - w)))
        evs.append({"op": "rank", "kind": kind, "rank": fx(rk), "want": fx(1 - c),
                    "tol": nt(SIG * math.sqrt(c * (1 - c) / n) + 1.0 / n + slack + 0.02), "case": "%s a=%.4f c=%s v=%.4f" % (case, a, c, v)})
    return evs


def offsets(kind, R, a, rest, dt, n, N, o, case):
    """confidence curves minus the mean curve, against replications of the documented simulation"""
    r = np.random.RandomState(case["s"] + 77)
    cls = (0.5, 0.8, 0.95)
    reps = []
    for _ in range(120):
        m, s = R.predict(at(a, rest[r.randint(0, len(rest), N)]))
        P = np.mean(m[:, None] + s[:, None] * r.randn(n)[None, :] > dt, axis=0)
        Q = np.repeat(P, 30)
        Q = Q + r.randn(len(Q)) * np.sqrt(Q * (1 - Q) / N)
        mean = min(max(Q.mean(), 0), 1)
        reps.append([min(max(q, 0), 1) - mean for q in np.quantile(Q, [1 - c for c in cls])])
    reps = np.array(reps)
    f = S.values(o.getPODModel(), [a])[0]
    got = [S.values(o.getPODCLModel(c), [a])[0] - f for c in cls]
    return {"op": "ref", "what": "confidence_offset", "kind": kind, "got": fxs(got), "ref": fxs(reps.mean(axis=0)),
            "tol": nt([7 * v + 2e-3 + 1.0 / N for v in reps.std(axis=0)]), "case": "%s a=%.4f" % (case, a)}


def given(evs, o, law, cs, xk, own):
    d = o.getDistribution()
    if law is None:
        lo, hi = list(xk.min(axis=0)), list(xk.max(axis=0))
        lo[0], hi[0] = min(cs), max(cs)
        g = [v for i in range(len(lo)) for v in (d.getMarginal(i).getRange().getLowerBound()[0], d.getMarginal(i).getRange().getUpperBound()[0])]
        evs.append({"op": "ref", "what": "default_law", "kind": "bounds", "got": fxs(g), "ref": fxs([v for p in zip(lo, hi) for v in p]), "tol": nt([1e-9] * len(g))})
        evs.append({"op": "used", "what": "uniform_law", "ok": all(d.getMarginal(i).getClassName() == "Uniform" or "Uniform" in str(d.getMarginal(i)) for i in range(len(lo))) and d.hasIndependentCopula()})
    else:
        evs.append({"op": "used", "what": "distribution", "ok": ot.JointDistribution(d) == ot.JointDistribution(law)})


# -------------------------------------------------------------- components
def third(f, k, dim, r):
    """largest divided difference of order k along random lines"""
    worst = 0.0
    for _ in range(12):
        p = np.r_[r.uniform(0.2, 0.4), r.uniform(-0.6, 0.0, dim - 1)]
        d = np.r_[r.uniform(0.1, 0.3), r.uniform(0.3, 0.6, dim - 1)] * r.choice([1, 1, 0.5])
        pts = np.array([p + d * t / k for t in range(k + 1)])
        v = np.array(f(pts)).ravel()
        worst = max(worst, abs(sum((-1) ** (k - i) * math.comb(k, i) * v[i] for i in range(k + 1))))
    return worst


def poly(x, deg, s):
    r = np.random.RandomState(s)
    y = np.full(len(x), 10.0)
    for d in range(1, deg + 1):
        w = r.uniform(2, 4, x.shape[1]) / d
        y = y + (x @ w) ** d
    return y


def do_parts(case):
    """the degree, strategies and ready-made results given by the user are the ones used"""
    s, dim, deg = case
    r = np.random.RandomState(s)
    n = 80
    x = np.c_[r.uniform(0.1, 0.8, n)[:, None], r.uniform(-1, 1, (n, dim - 1))]
    y = poly(x, deg, s)
    det = float(np.median(y))
    evs = []
    for g in (1, 2, 3, 4):
        o = S.build("chaos", x, y.reshape(-1, 1), det, degree=g, sim=2, sampling=50)
        S.run(o, s)
        f = o.getPolynomialChaosResult().getMetaModel()
        low = third(f, g + 1, dim, np.random.RandomState(s + g)) < 1e-6
        fits = float(np.abs(np.array(f(x)).ravel() - y).max()) < 1e-5
        evs.append({"op": "used", "what": "degree", "ok": bool(low and fits == (g >= deg)), "case": "%s g=%d" % (case, g)})
    # dense least squares on a given basis
    law = ot.JointDistribution([ot.Uniform(0.1, 0.8)] + [ot.Uniform(-1.0, 1.0)] * (dim - 1))
    basis = ot.OrthogonalProductPolynomialFactory([ot.LegendreFactory()] * dim, ot.LinearEnumerateFunction(dim))
    k = dim + 2
    ye = y + r.randn(n)
    o = S.build("chaos", x, ye.reshape(-1, 1), det, sim=2, sampling=50)
    o.setDistribution(law)
    o.setAdaptiveStrategy(ot.FixedStrategy(basis, k))
    o.setProjectionStrategy(ot.LeastSquaresStrategy(ot.Sample(x), ot.Sample(ye.reshape(-1, 1))))
    S.run(o, s)
    u = np.c_[(x[:, :1] - 0.45) / 0.35, x[:, 1:]]
    B = np.column_stack([np.array(basis.build(i)(u)).ravel() for i in range(k)])
    ols = B @ np.linalg.lstsq(B, ye, rcond=None)[0]
    evs.append({"op": "ref", "what": "given_strategies", "kind": "chaos", "got": fxs(np.array(o.getPolynomialChaosResult().getMetaModel()(x)).ravel()[:20]),
                "ref": fxs(ols[:20]), "tol": nt([1e-6] * 20)})
    # a ready-made result wins over the data
    t = o.getPolynomialChaosResult()
    for more in (0, 1):
        q = S.build("chaos", x, (y + 3 * x[:, 0] * y).reshape(-1, 1), det, sim=2, sampling=400, degree=3)
        if more:
            S.run(q, 1)
        q.setPolynomialChaosResult(t)
        S.run(q, s)
        m = q.getPolynomialChaosResult().getMetaModel()
        evs.append({"op": "ref", "what": "given_result", "kind": "chaos", "got": fxs(np.array(m(x)).ravel()[:20]), "ref": fxs(ols[:20]), "tol": nt([1e-6] * 20)})
        rest = others({}, law, x, 4000, s)
        y2 = y + 3 * x[:, 0] * y
        sd = math.sqrt(float(np.sum((y2 - ols) ** 2)) / (n - k - 1))
        cs = list(np.array(q.getDefectSizes()))[::4]
        ref = [float(phi((np.array(m(at(a, rest))).ravel() - det) / sd).mean()) for a in cs]
        evs.append({"op": "ref", "what": "exceedance", "kind": "given_result", "got": fxs(S.values(q.getPODModel(), cs)), "ref": fxs(ref), "tol": nt([SIG * 0.5 / math.sqrt(400) + 0.02] * len(cs))})
    return evs


# ----------------------------------------------------------------- kriging
class Krige:
    """universal kriging on centred, reduced inputs with given covariance and basis"""

    def __init__(self, x, y, cov, basis):
        self.mu, self.sd = x.mean(axis=0), x.std(axis=0, ddof=1)
        self.basis, self.cov = basis, cov
        self.u = (x - self.mu) / self.sd
        n = len(x)
        self.K = np.array(cov.discretize(ot.Sample(self.u)))
        self.F = self.trend(self.u)
        self.L = np.linalg.cholesky(self.K)
        self.Ki = lambda b: np.linalg.solve(self.L.T, np.linalg.solve(self.L, b))
        self.A = self.F.T @ self.Ki(self.F)
        self.beta = np.linalg.solve(self.A, self.F.T @ self.Ki(y))
        self.g = self.Ki(y - self.F @ self.beta)
        self.y = y

    def trend(self, u):
        s = ot.Sample(u)
        return np.column_stack([np.array(self.basis.build(i)(s)).ravel() for i in range(self.basis.getSize())])

    def cross(self, u):
        return np.array(self.cov.computeCrossCovariance(ot.Sample(u), ot.Sample(self.u)))

    def predict(self, x):
        u = (x - self.mu) / self.sd
        c = self.cross(u)
        f = self.trend(u)
        m = f @ self.beta + c @ self.g
        w = self.Ki(c.T)
        h = f.T - self.F.T @ w
        k0 = np.array(self.cov.computeAsScalar([0.0] * x.shape[1])) if self.cov.getOutputDimension() == 1 else 0
        v = float(k0) - np.sum(c * w.T, axis=1) + np.sum(h * np.linalg.solve(self.A, h), axis=0)
        return m, np.sqrt(np.maximum(v, 0))

    def loo_residuals(self):
        n, p = self.F.shape
        Q = np.linalg.inv(np.block([[self.K, self.F], [self.F.T, np.zeros((p, p))]]))[:n, :n]
        return (Q @ self.y) / np.diag(Q)

    def loo(self):
        r = self.loo_residuals()
        return 1 - float(np.mean(r ** 2)) / float(np.var(self.y))


def kriging_study(case):
    x, y = design(case, case["n"])
    det, noise, sat, k = tested(x, y, case)
    kw = {}
    if case["kind"] == "adaptive":
        kw = dict(model=ot.PythonFunction(x.shape[1], 1, lambda v: [float(S.shape(case["s"])(np.array(v))[0])]), more=case["more"], cand=3)
    o = S.build(case["kind"], x, y.reshape(-1, 1), det, noise, sat, case["box"], sim=case["sim"], sampling=case["N"], start=case["start"], **kw)
    xk, yk = x[k], y[k]
    sizes = pick_sizes(xk, case)
    if case["sizes"]:
        o.setDefectSizes(sizes)
    law = laws(case, xk, sizes)
    if law is not None:
        o.setDistribution(law)
    dim = x.shape[1]
    if case["parts"]:
        o.setBasis(ot.Basis([ot.SymbolicFunction(["x%d" % i for i in range(dim)], [e]) for e in
                             (["1"], ["1", "x1"], ["1", "x0", "x1", "x0*x1"])[case["s"] % 3]]))
        o.setCovarianceModel([ot.MaternModel([1.3] * dim, 2.5), ot.SquaredExponential([0.8] * dim), ot.AbsoluteExponential([2.0] * dim)][case["s"] % 3])
    if case["sim"] >= 1000:     # a loose metamodel
        o.setCovarianceModel(ot.AbsoluteExponential([0.7] * dim, [5.0]))
    return o, xk, yk, det, sizes, law


def do_kriging(case):
    o, xk, yk, det, sizes, law = kriging_study(case)
    if case["box"] and not isinstance(o.getBoxCoxParameter(), float):
        return []
    S.run(o, case["s"])
    return kriging_events(case, o, xk, yk, det, sizes, law)


def kriging_events(case, o, xk, yk, det, sizes, law, kind=None):
    evs = []
    kind = kind or case["kind"]
    res = o.getKrigingResult()
    bounds = xk
    if case["kind"] == "adaptive":
        xk, yk = np.array(o.getInputDOE()), np.array(o.getOutputDOE()).ravel()
    yt, dt = boxed(o, yk, det, None, case)
    dim = xk.shape[1]
    R = Krige(xk, yt, res.getCovarianceModel(), res.getBasis())
    if np.linalg.cond(R.K) > 1e12:     # no reference
        return []
    cs = sorted(sizes)
    f = o.getPODModel()
    rest = others(case, law, bounds, 3000, case["s"])
    z = np.array(Z.computeQuantile(list(np.arange(0.0005, 1, 0.001)))).ravel() if False else np.array([Z.computeQuantile(t)[0] for t in np.arange(0.0025, 1, 0.005)])
    ref, tol, Ps = [], [], []
    n, N = case["sim"], case["N"]
    for a in cs:
        m, s = R.predict(at(a, rest))
        p = float(phi((m - dt) / np.maximum(s, 1e-12)).mean())
        Pz = np.array([np.mean(m + t * s > dt) for t in z])
        ref.append(p)
        # one standard normal draw per simulated metamodel, one sample of the inputs per defect size
        tol.append(SIG * math.sqrt(max(p * (1 - p), 1.0 / N) * (1.0 / N + 1.0 / 3000) + Pz.var() / n) + 1e-4)
        Ps.append(Pz)
    got = S.values(f, cs)
    evs.append({"op": "ref", "what": "exceedance", "kind": kind, "got": fxs(got), "ref": fxs(ref), "tol": nt(tol), "case": str(case)})
    evs += mids(f, cs)
    evs.append({"op": "ref", "what": "quality", "kind": kind, "got": fxs([o.getQ2()]), "ref": fxs([R.loo()]), "tol": nt([5e-3 if case["box"] else 1e-4 + 1e-3 * (1 - R.loo())]), "case": str(case)})
    m, s = R.predict(xk)
    pts = at(cs[1], rest[:20])
    mm, _ = R.predict(pts)
    gm = np.array(res.getMetaModel()((pts - R.mu) / R.sd)).ravel()
    evs.append({"op": "ref", "what": "metamodel", "kind": kind, "got": fxs(gm), "ref": fxs(mm), "tol": nt([5e-3 * float(np.std(yt))] * 20), "case": str(case)})
    for i in range(1, len(cs), 3):
        evs.append(offsets(kind, R, cs[i], rest, dt, n, N, o, case))
    given(evs, o, law, cs, bounds, None)
    if case["parts"]:
        b = (["1"], ["1", "x1"], ["1", "x0", "x1", "x0*x1"])[case["s"] % 3]
        u = ot.Sample(R.u[:5])
        gb = res.getBasis()
        want = [[1.0 if e == "1" else float(v[0] if e == "x0" else v[1] if e == "x1" else v[0] * v[1]) for v in R.u[:5]] for e in b]
        gotb = [list(np.array(gb.build(i)(u)).ravel()) for i in range(gb.getSize())]
        evs.append({"op": "used", "what": "basis", "ok": len(want) == len(gotb) and bool(np.allclose(want, gotb))})
        name = ["MaternModel", "SquaredExponential", "AbsoluteExponential"][case["s"] % 3]
        evs.append({"op": "used", "what": "covariance", "ok": res.getCovarianceModel().getImplementation().getClassName() == name})
        sc = list(res.getCovarianceModel().getScale())
        same = np.allclose(sc, [[1.3, 0.8, 2.0][case["s"] % 3]] * dim)
        if case["start"] == 0 and kind == "kriging":
            evs.append({"op": "used", "what": "covariance_scale", "ok": bool(same), "case": str(case)})
        elif kind == "kriging":
            evs.append({"op": "used", "what": "start_size", "ok": not same, "case": str(case)})
    return evs


def do_given_kriging(case):
    """a ready-made kriging result is the one used"""
    case = dict(case, kind="kriging", cens=False, box=False, law="", parts=False, start=5, sizes=True)
    o, xk, yk, det, sizes, law = kriging_study(case)
    S.run(o, 1)
    res = o.getKrigingResult()
    out = []
    for more in (0, 1):
        q = S.build("kriging", xk, (yk * 0.5 + 20 * xk[:, 1]).reshape(-1, 1), det, sim=case["sim"], sampling=case["N"], start=0, sizes=sizes)
        if more:
            S.run(q, 2)
        q.setKrigingResult(res)
        S.run(q, 3)
        R = Krige(xk, yk, res.getCovarianceModel(), res.getBasis())
        rest = others(case, None, xk, 3000, case["s"])
        got = S.values(q.getPODModel(), sorted(sizes))
        ref, tol = [], []
        z = np.array([Z.computeQuantile(t)[0] for t in np.arange(0.0025, 1, 0.005)])
        for a in sorted(sizes):
            m, s = R.predict(at(a, rest))
            p = float(phi((m - det) / np.maximum(s, 1e-12)).mean())
            Pz = np.array([np.mean(m + t * s > det) for t in z])
            ref.append(p)
            tol.append(SIG * math.sqrt(max(p * (1 - p), 1.0 / case["N"]) * (1.0 / case["N"] + 1 / 3000.0) + Pz.var() / case["sim"]) + 1e-4)
        out.append({"op": "ref", "what": "given_result", "kind": "kriging", "got": fxs(got), "ref": fxs(ref), "tol": nt(tol)})
    return out


def run(ctx):
    pick = ctx.pick
    cases = []
    for na in (2, 3):
        at_, w = LAWS[na]
        got = ctx.cases("Exceed", constants=dict(
            Sizes="<<1, 2, 3, 4, 5>>", Atoms="<<%s>>" % ",".join(map(str, at_)), Weights="<<%s>>" % ",".join(map(str, w)),
            C0s=pick("{0, 4}", "{-3, 0, 4}"), C1s=pick("{2, -1}", "{1, 2, -1, 3}"), C2s=pick("{1, -2}", "{1, 2, -1, -2}"),
            Det2s=pick("{1, 5, 9, 13, 21}", "{-7, -3, 1, 3, 5, 7, 9, 11, 13, 17, 21}")),
            invariants=["Whole", "Bounded", "Counted", "Rises", "Falls", "Complement"])
        cases += [(na, c) for c in got]
    mixed = [t for t in cases if any(0 < p < 10 for p in t[1]["pod"])]
    ctx.rng.shuffle(mixed)
    take = mixed[:pick(60, 400)]
    ctx.extra["exact_cases"] = len(take)
    jobs = [("chaos", na, c) for na, c in take] + [(k, na, c) for i, (na, c) in enumerate(take) for k in ("kriging", "adaptive") if i % pick(4, 3) == 0]
    evs = ctx.replay(do_exact, [jobs[i::24] for i in range(24)], limit=pick(300, 1500))
    ctx.sample(take[0][1])
    base = dict(s=0, dim=2, noise=0.5, n=40, cens=False, box=False, law="", sizes=True, degree=None, sim=300, N=400, start=0, parts=False, more=0)
    ch = []
    for s in range(pick(3, 12)):
        ch += [dict(base, kind="chaos", s=s, noise=2.0, dim=1 + (s + i) % 3, n=60, **o) for i, o in enumerate(
            [dict(), dict(sizes=False, cens=True), dict(box=True), dict(law="shift"), dict(law="copula", dim=3) if False else dict(law="shift", cens=True), dict(degree=2), dict(sim=800, N=150)])
            if not (o.get("law") and 1 + (s + i) % 3 == 1)]
    evs += ctx.replay(do_chaos, ch, limit=pick(300, 900))
    evs += ctx.replay(do_parts, [(s, 2 + s % 2, 1 + s % 3) for s in range(pick(4, 18))], limit=300)
    kr = []
    for s in range(pick(3, 12)):
        kr += [dict(base, kind=k, s=s, noise=1.0, dim=2 + (s + i) % 2, n=36, sim=200, N=200, **o) for k in ("kriging", "adaptive") for i, o in enumerate(
            [dict(), dict(sizes=False, cens=True), dict(law="shift", start=4), dict(parts=True), dict(parts=True, start=5), dict(box=True)])]
        kr += [dict(base, kind=k, s=s, dim=3, noise=1.0, n=36, sim=200, N=300, law="copula", sizes=True) for k in ("kriging", "adaptive")]
        kr += [dict(base, kind="adaptive", s=s, dim=2 + s % 2, noise=0.3, n=16, sim=25, N=60, more=2)]
        kr += [dict(base, kind=k, s=s, dim=2, noise=2.5, n=24, sim=3000, N=120) for k in ("kriging", "adaptive")[:1 + s % 2]]
    for c in kr:
        if c["kind"] == "adaptive" and not c["more"] and c["sim"] < 1000:
            c["N"], c["sim"] = 150, 150
    evs += ctx.replay(do_kriging, kr, limit=pick(400, 1500))
    evs += ctx.replay(do_given_kriging, [dict(base, s=s, noise=1.0, n=36, sim=200, N=200) for s in range(pick(2, 6))], limit=300)
    ctx.extra["studies"] = len(ch) + len(kr)
    cop = [dict(base, kind="chaos", s=s, noise=2.0, dim=3, n=60, law="copula", degree=2) for s in range(pick(1, 4))]
    evs += ctx.replay(do_copula_chaos, cop, limit=300)
    ctx.validate("ExceedTrace", evs)
    bad = copy.deepcopy([e for t in evs for e in t if e["op"] == "ref" and e["what"] == "exceedance"][0])
    bad["got"][1] = fx(bad["got"][1][0] + bad["got"][1][1] / 1e9 + (0.4 if bad["got"][1][1] < 5e8 else -0.4))
    ctx.must_reject("ExceedTrace", [[bad]])
    ctx.assumptions += ["Statistical comparisons at %.1f standard deviations of the Monte Carlo estimate the study makes" % SIG]
    return ctx.finish()


def do_copula_chaos(case):
    """dependent inputs: the chaos is built elsewhere, the dependence is used for the POD"""
    x, y = design(case, case["n"])
    t = S.build("chaos", x, y.reshape(-1, 1), 20.0, degree=2, sim=2, sampling=50)
    S.run(t, 1)
    det = float(np.quantile(y, 0.5))
    o = S.build("chaos", x, y.reshape(-1, 1), det, sim=2, sampling=2000)
    sizes = pick_sizes(x, case)
    o.setDefectSizes(sizes)
    o.setPolynomialChaosResult(t.getPolynomialChaosResult())
    law = laws(case, x, sizes)
    o.setDistribution(law)
    S.run(o, 2)
    m = t.getPolynomialChaosResult()
    f = m.getMetaModel()
    pred = np.array(f(x)).ravel()
    sd = math.sqrt(float(np.sum((y - pred) ** 2)) / (len(y) - len(m.getReducedBasis()) - 1))
    rest = others(case, law, x, 6000, case["s"])
    ref, tol = [], []
    for a in sorted(sizes):
        p = float(phi((np.array(f(at(a, rest))).ravel() - det) / sd).mean())
        ref.append(p)
        tol.append(SIG * math.sqrt(max(p * (1 - p), 5e-4) * (1 / 2000.0 + 1 / 6000.0)) + 1e-5)
    return [{"op": "ref", "what": "exceedance", "kind": "chaos_copula", "got": fxs(S.values(o.getPODModel(), sorted(sizes))), "ref": fxs(ref), "tol": nt(tol)}]
