"""Adaptive studies driven through run / failure / change histories with a recording physical model (C13, C14)."""
import contextlib
import io

import numpy as np
import openturns as ot
from sklearn.ensemble import ExtraTreesClassifier
from sklearn.metrics import confusion_matrix

import c06
import otpod
import studies as S
from common import call, fx, fxs


class Fails(Exception):
    pass


class Physics:
    """The physical model: numbers the points, records every evaluation, fails on demand."""

    def __init__(self, f, dim, how):
        self.f, self.ids, self.calls, self.fault, self.n = f, {}, [], 0, 0
        self.how = how
        self.function = ot.PythonFunction(dim, 1, self)

    def id(self, p):
        return self.ids.setdefault(tuple(float(v) for v in p), len(self.ids) + 1)

    def __call__(self, p):
        p = [float(v) for v in p]
        self.n += 1
        bad = self.fault and self.n == self.fault
        v = float(self.f(np.array(p)))
        self.calls.append({"op": "call", "id": self.id(p), "ok": not bad, "v": fx(v)})
        if bad:
            if self.how == "shape":
                return [v, v]
            if self.how == "text":
                return ["no signal"]
            raise Fails("the solver stopped")
        return [v]

    def start(self, fault):
        self.calls, self.fault, self.n = [], fault, 0


def step(x):
    return np.floor(S.surf(x)[0])


LO = [0.1, -1.0, -1.0]
HI = [0.8, 1.0, 1.0]


def law(kind, dim):
    if kind == "user":
        return ot.JointDistribution([ot.Uniform(0.15, 0.7)] + [ot.TruncatedNormal(0.3, 0.5, -0.6, 0.9)] * (dim - 1)), ([0.15] + [-0.6] * (dim - 1), [0.7] + [0.9] * (dim - 1))
    if kind == "wide":
        return ot.JointDistribution([ot.Uniform(0.05, 0.9)] + [ot.Uniform(-1.3, 1.2)] * (dim - 1)), ([0.05] + [-1.3] * (dim - 1), [0.9] + [1.2] * (dim - 1))
    if kind == "tied":     # the other inputs are equal
        m = [ot.Uniform(0.1, 0.8)] + [ot.Uniform(-1.0, 0.8)] * (dim - 1)
        return ot.JointDistribution(m, ot.BlockIndependentCopula([ot.IndependentCopula(1), ot.MinCopula(dim - 1)])), ([0.1] + [-1.0] * (dim - 1), [0.8] + [0.8] * (dim - 1))
    return None, ([], [])


def sizes_list(i):
    return [[0.2, 0.35, 0.5, 0.65], [0.6, 0.3, 0.45], [0.4, 0.25, 0.55]][i % 3]


class Live:
    def __init__(self, c):
        self.c = c
        dim, s = c["dim"], c["s"]
        x, y = S.surf_data(c["n"], dim, s + 3, 0.3)
        x[0], x[1] = LO[:dim], HI[:dim]
        y[:2] = S.surf(x[:2])
        self.thr, self.det = None, c["det"]
        if c["sobol"]:      # the initial design comes from the same sequence as the candidates
            d, _ = law("wide", dim)
            x = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), d, c["n"]).generate())
            y = S.surf(x)
        if c["kind"] == "hitmiss":
            y = np.array([step(v) for v in x])
            f = step if c["withdet"] else (lambda v: 1.0 if step(v) > c["det"] else 0.0)
            if not c["withdet"]:
                y = (y > c["det"]).astype(float)
        else:
            y = y - c["down"]
            f = lambda v: S.surf(v)[0] - c["down"]
        if c["cens"]:
            r = np.sort(y)
            self.thr = (float(r[1]), float(r[-2]))
        self.x, self.y = x, y
        self.phys = Physics(f, dim, c["how"])
        given = [self.phys.id(p) for p in x]
        n, sat = self.thr or (None, None)
        kw = dict(model=self.phys.function, more=c["more"], cand=c["cand"], sampling=c["sampling"])
        if c["kind"] == "adaptive":
            self.o = S.build("adaptive", x, y.reshape(-1, 1), c["det"] - c["down"], n, sat, c["box"], sim=c["sim"], start=c["start"], **kw)
        else:
            self.o = otpod.AdaptiveHitMissPOD(x, y.reshape(-1, 1), self.phys.function, c["more"], c["det"] if c["withdet"] else None, n, sat)
            self.o.setCandidateSize(c["cand"])
            self.o.setSamplingSize(c["sampling"])
            self.o.setVerbose(False)
            if c["cls"] == "svc":
                self.o.setClassifierType("svc")
            else:
                self.o.setClassifierParameters([[c["trees"]], [None], [2], [0]])
            if c["window"]:
                self.o.setPMin(c["window"][0])
                self.o.setPMax(c["window"][1])
        self.law = ""
        self.sizes = None
        self.k = 0
        if c["law"]:
            self.setlaw(c["law"])
        self.det_ = [fx(c["det"])] if c["kind"] == "hitmiss" and c["withdet"] else []
        self.tol = 20000 if c["box"] else 2
        self.evs = [dict(self.obs(), op="start", given=given, ys=fxs(y), thr=[fx(t) for t in self.thr] if self.thr else [])]

    def setlaw(self, kind):
        self.o.setDistribution(law(kind, self.c["dim"])[0])
        self.law = kind

    def obs(self):
        p, s = np.array(self.o.getInputDOE()), np.array(self.o.getOutputDOE()).ravel()
        tied = self.law == "tied"
        lo, hi = law(self.law, self.c["dim"])[1]
        ds = np.array(self.o.getDefectSizes()).ravel()
        return {"kind": self.c["kind"], "pts": [self.phys.id(v) for v in p], "sig": fxs(s), "tol": self.tol, "xs": [fxs(v) for v in p],
                "det": self.det_, "lo": fxs(lo), "hi": fxs(hi), "size": fxs([ds.min(), ds.max()]), "more": self.c["more"],
                "onlaw": [bool(not tied or abs(v[1:] - v[1]).max() < 1e-9) for v in p]}

    def run(self, fault):
        self.phys.start(fault)
        S.seed(self.c["s"] + 31 * self.k)
        self.k += 1

        def go():
            with contextlib.redirect_stdout(io.StringIO()):
                self.o.run()

        ok, exc = call(go)
        self.evs += self.phys.calls
        self.evs.append(dict(self.obs(), op="run", ok=ok, exc="" if ok else str(exc)[:200], case=str(self.c)[:400]))
        return ok

    def change(self, what):
        if what == "sizes":
            a = np.array(self.o.getInputDOE())[:, 0]
            self.sizes = [a.min() + (a.max() - a.min()) * (t - 0.1) / 0.7 for t in sizes_list(self.k)]
            self.o.setDefectSizes(self.sizes)
        elif what == "law":
            self.setlaw("user" if self.law != "user" else "wide")
        elif what == "cand":
            self.o.setCandidateSize(self.c["cand"] + 2)
        elif what == "read":
            for m in ("getPODModel", "getPODCLModel", "getDefectSizes", "getQ2", "getConfusionMatrix", "getClassifier", "getDistribution"):
                if hasattr(self.o, m):
                    call(getattr(self.o, m))
            call(self.o.computeDetectionSize, 0.5)


def play(case):
    c, hist = case
    live = Live(c)
    ok = False
    for h in hist:
        if h["k"] == "run":
            before = len(live.o.getInputDOE())
            ok = live.run(h["v"])
        else:
            live.change(h["k"])
    evs = live.evs
    if c["box"] and c["kind"] == "adaptive":
        # the inverse of a Box-Cox transformation of very negative parameter is not accurate
        good, lam = call(live.o.getBoxCoxParameter)
        if good and lam is not None and lam < (-3 if c["down"] else -10):
            return [{"op": "holds", "what": "no_reference", "ok": True}]
    if ok and c["final"] and hist[-1]["k"] == "run":
        evs += (signal_final if c["kind"] == "adaptive" else hitmiss_final)(live, c, before)
    return evs


# ------------------------------------------------------------- what was built
def signal_final(live, c, before):
    o = live.o
    case = dict(kind="adaptive", s=c["s"], sim=c["sim"], N=c["sampling"], box=c["box"], parts=False, law=live.law, start=c["start"])
    k = np.ones(len(live.y), bool)
    if live.thr:
        k = (live.y > live.thr[0]) & (live.y < live.thr[1])
    # the signals are shifted once for all, by the lowest of the given ones
    case["shift"] = 100 - live.y[k].min() if live.y[k].min() < 0 else 0.0
    lw = law(live.law, c["dim"])[0]
    try:
        evs = c06.kriging_events(case, o, live.x[k], live.y[k], c["det"] - c["down"], list(np.array(o.getDefectSizes()).ravel()), lw)
    except np.linalg.LinAlgError:      # the reference cannot be computed: two points very close, a very smooth covariance
        return [{"op": "holds", "what": "no_reference", "ok": True}]
    return [turn(e) for e in evs]


def turn(e):
    """events of C06 in the vocabulary of EnrichTrace"""
    if e["op"] == "mid":
        a, b, d = [h + l / 1e9 for h, l in e["f"]]
        return {"op": "ref", "what": "linear_between_sizes", "got": [fx(2 * b)], "ref": [fx(a + d)], "tol": [40]}
    if e["op"] == "used":
        return {"op": "holds", "what": "given_%s_is_used" % e["what"], "ok": e["ok"]}
    if e["op"] == "rank":
        return {"op": "rank", "what": "confidence_curve", "rank": e["rank"], "want": e["want"], "tol": e["tol"], "case": e["case"]}
    return dict(e, what=e["what"] + "_of_the_enriched_design")


def forest(c, x, z):
    a = ExtraTreesClassifier(n_estimators=c["trees"], max_depth=None, min_samples_split=2, random_state=0)
    a.fit(x, z)
    return a.predict_proba


def hitmiss_final(live, c, before):
    o = live.o
    D, z = np.array(o.getInputDOE()), np.array(o.getOutputDOE()).ravel()
    sizes = sorted(np.array(o.getDefectSizes()).ravel())
    N = c["sampling"]
    r = np.random.RandomState(c["s"] + 5)
    M = 8000
    lw = law(live.law, c["dim"])[0]
    if lw is None:
        k = np.ones(len(live.y), bool)
        if live.thr:
            k = (live.y > live.thr[0]) & (live.y < live.thr[1])
        lo, hi = live.x[k].min(axis=0)[1:], live.x[k].max(axis=0)[1:]
        rest = lo + (hi - lo) * r.rand(M, c["dim"] - 1)
    else:
        S.seed(c["s"] + 900)
        rest = np.array(lw.getSample(M))[:, 1:]
    f = o.getPODModel()
    clf = o.getClassifier()
    got = S.values(f, sizes)
    ref, tol, evs = [], [], []
    for i, a in enumerate(sizes):
        p = np.array(clf(c06.at(a, rest)))[:, 1]
        if not np.all(np.isfinite(p)):
            return [{"op": "holds", "what": "classifier_gives_probabilities", "ok": False}]
        ref.append(p.mean())
        tol.append(c06.SIG * np.sqrt(max(p.var(), 1.0 / N) * (1.0 / N + 1.0 / M)) + 1e-6)
        if i % 3 == 1:
            for cl in (0.5, 0.9):
                v = S.values(o.getPODCLModel(cl), [a])[0]
                lo, hi = np.mean(p < v - 1e-9), np.mean(p <= v + 1e-9)
                want, t = 1 - cl, c06.SIG * np.sqrt(cl * (1 - cl) * (1.0 / N + 1.0 / M)) + 1.5 / N
                # ties: the rank interval has to meet the target
                rk = min(max(want, lo), hi)
                evs.append({"op": "rank", "what": "confidence_curve", "rank": fx(rk), "want": fx(want), "tol": c06.nt(t)})
    evs.append({"op": "ref", "what": "pod_is_the_frequency_of_the_classifier", "got": fxs(got), "ref": fxs(ref), "tol": c06.nt(tol)})
    for a, b in zip(sizes[:-1], sizes[1:]):
        v = S.values(f, [a, 0.5 * (a + b), b])
        evs.append({"op": "ref", "what": "linear_between_sizes", "got": [fx(2 * v[1])], "ref": [fx(v[0] + v[2])], "tol": [40]})
    evs.append({"op": "holds", "what": "pod_is_a_probability", "ok": bool(np.all((np.array(got) >= 0) & (np.array(got) <= 1)))})
    if c["cls"] == "rf" and c["more"] <= 1:
        X = np.vstack([D, c06.at(sizes[1], rest[:25])])
        p = forest(c, D, z)(X)[:, 1]
        if c["more"] == 1:
            old = forest(c, D[:before], z[:before])
            m = 1.0 * confusion_matrix(z, old(D)[:, 1] >= 0.5)
            if (m.sum(axis=0) == 0).any():      # a class never predicted
                evs.append({"op": "holds", "what": "confusion_matrix_is_finite", "ok": bool(np.all(np.isfinite(o.getConfusionMatrix())))})
                return evs
            m = m / m.sum(axis=0)
            evs.append({"op": "ref", "what": "confusion_matrix_of_the_enriched_design", "got": fxs(np.array(o.getConfusionMatrix()).ravel()), "ref": fxs(m.ravel()), "tol": [100] * 4})
            p = np.clip((p - m[1, 0]) / (m[1, 1] - m[1, 0]), 0, 1)
        evs.append({"op": "ref", "what": "classifier_of_the_enriched_design", "got": fxs(np.array(clf(X))[:, 1]), "ref": fxs(p), "tol": [1000] * len(X)})
    return evs


# ----------------------------------------------------------- which candidate
def sobol(lw, n, D):
    """the first n points of the low discrepancy sequence that are not in the design"""
    P = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), lw, n + len(D)).generate())
    known = {tuple(p) for p in D}
    return [p for p in P if tuple(p) not in known][:n]


def index(cands, p):
    hit = [i for i, q in enumerate(cands) if np.allclose(p, q, rtol=0, atol=1e-9)]
    return hit[0] + 1 if hit else 0


def do_choice(case):
    """signal studies: among the candidates, the one with the smallest integrated mean squared error of the POD"""
    s, dim, cand = case["s"], case["dim"], case["cand"]
    r = np.random.RandomState(s)
    n = 7 + s % 4
    # a part of the domain is empty: going there teaches more
    x = np.c_[r.uniform(0.1, 0.8, n)[:, None], r.uniform(-1, 0.9, (n, dim - 1)) ]
    x[:, 1] = r.uniform(*((-1, -0.3) if s % 4 < 2 else (0.3, 1.0)), n)
    x[0, 0], x[1, 0] = 0.1, 0.8
    big, fr = ((3, 7), (16, 12))[s // 4 % 2]       # the rougher one holds surprises
    y = S.surf(x) + big * np.sin(fr * x[:, 0] + 2 * x[:, 1])
    det = float(np.median(y))
    phys = Physics(lambda v: S.surf(v)[0] + big * np.sin(fr * v[0] + 2 * v[1]), dim, "raise")
    lw, _ = law("user" if s % 2 else "wide", dim)
    N, sim = 600, 400
    sizes = [0.2, 0.3, 0.4, 0.5, 0.6] if s % 3 else [0.45, 0.25, 0.35]
    more = 1 + s % 2
    G, seen = phys.f, []

    def go(v):          # the metamodel in force when a point is chosen
        seen.append(ot.CovarianceModel(o.getKrigingResult().getCovarianceModel()))
        return [float(G(np.array(v)))]

    o = S.build("adaptive", x, y.reshape(-1, 1), det, model=ot.PythonFunction(dim, 1, go), more=more, sim=sim, sampling=N, cand=cand, sizes=sizes, start=case["start"])
    cov = ot.SquaredExponential([2.5] * dim, [8.0])
    o.setCovarianceModel(cov)
    o.setDistribution(lw)
    cands = sobol(lw, cand, x)
    try:
        S.run(o, s)
    except RuntimeError as e:
        if "local searches" not in str(e):
            raise
        return [{"op": "holds", "what": "no_reference", "ok": True}]
    D = np.array(o.getInputDOE())
    basis = o.getKrigingResult().getBasis()
    S.seed(s + 4000)
    rest = np.array(lw.getSample(2000))[:, 1:]
    z = np.array([c06.Z.computeQuantile(t)[0] for t in np.arange(0.005, 1, 0.01)])
    evs = []
    for j in range(more):
        cov = seen[j]
        R = c06.Krige(x, y, cov, basis)
        cur = [np.mean(R.predict(c06.at(a, rest))[0] > det) for a in sizes]
        crits = [[], [], [], []]      # lower and upper bound of what is computed by simulation
        for q in cands:
            X, Y = np.vstack([x, q]), np.r_[y, R.predict(np.array([q]))[0]]
            try:
                both = (cov, estimated(X, Y, cov, basis))
            except RuntimeError:
                return evs or [{"op": "holds", "what": "no_reference", "ok": True}]
            for k, cv in enumerate(both):
                A = c06.Krige(X, Y, cv, basis)
                t = v = 0.0
                for a, p0 in zip(sizes, cur):
                    m, sd = A.predict(c06.at(a, rest))
                    P = np.array([np.mean(m + t_ * sd > det) for t_ in z])
                    own, bias = P.var() + np.mean(P * (1 - P)) / N, P.mean() - p0
                    t += own + bias ** 2
                    w = own / sim + p0 * (1 - p0) * (1.0 / N + 1.0 / len(rest))
                    v += (np.mean((P - P.mean()) ** 4) + 3 * (own - P.var()) ** 2) / sim + 4 * bias ** 2 * w + 2 * w ** 2
                b = 4.5 * np.sqrt(v)
                crits[2 * k].append(np.log(max(t - b, 1e-6 * t) / len(sizes) + 3e-4) / 2)
                crits[2 * k + 1].append(np.log((t + b) / len(sizes) + 3e-4) / 2)
        i = index(cands, D[len(x)])
        evs.append({"op": "choice", "chosen": i, "kept": fxs(crits[0]), "keptup": fxs(crits[1]), "estimated": fxs(crits[2]), "estimatedup": fxs(crits[3]), "tol": 60000000, "case": str(case)})
        if not i:
            break
        y = np.r_[y, G(D[len(x)])]
        x = D[:len(x) + 1]
        cands = cands[:i - 1] + cands[i:]
    return evs


def estimated(X, Y, cov, basis):
    """covariance parameters estimated again with the candidate in the design"""
    u = (X - X.mean(axis=0)) / X.std(axis=0, ddof=1)
    f = ot.GaussianProcessFitter(ot.Sample(u), ot.Sample(Y.reshape(-1, 1)), cov, basis)
    f.run()
    return f.getResult().getCovarianceModel()


def do_window(case):
    """hit/miss studies: candidates whose outcome is uncertain come first"""
    s, dim = case["s"], case["dim"]
    x, y = S.surf_data(26, dim, s + 3, 0.3)
    det = float(np.quantile(y, (0.5, 0.35, 0.65)[s % 3]))
    z = (y > det).astype(float)
    phys = Physics(lambda v: 1.0 if S.surf(v)[0] > det else 0.0, dim, "raise")
    o = otpod.AdaptiveHitMissPOD(x, z.reshape(-1, 1), phys.function, 1)
    lw, _ = law("user" if s % 2 else "wide", dim)
    o.setDistribution(lw)
    o.setCandidateSize(case["cand"])
    o.setSamplingSize(50)
    o.setVerbose(False)
    lo, hi = case["window"]
    o.setPMin(lo)
    o.setPMax(hi)
    o.setClassifierParameters([[case["trees"]], [None], [2], [0]])
    cands = sobol(lw, case["cand"], x)
    S.run(o, s)
    p = forest(case, x, z)(np.array(cands))[:, 1]
    return [{"op": "window", "chosen": index(cands, np.array(o.getInputDOE())[-1]), "probs": fxs(p), "lo": fx(lo), "hi": fx(hi), "case": str(case)}]


# ------------------------------------------------------- several improvements
def aggregated(f, m):
    """the classifier f corrected with the confusion matrix m"""
    return lambda X: np.clip((f(X)[:, 1] - m[1, 0]) / (m[1, 1] - m[1, 0]), 0, 1)


def do_batches(case):
    """hit/miss studies over several improvements: every one looks for uncertain candidates with the classifier of the design of that moment"""
    s, dim, more = case["s"], case["dim"], case["more"]
    x, y = S.surf_data(case["n"], dim, s + 3, 0.3)
    det = float(np.quantile(y, (0.5, 0.35, 0.65)[s % 3]))
    r = np.random.RandomState(s)
    z = (y > det).astype(float)
    flip = r.rand(len(z)) < case["flip"]
    z[flip] = 1 - z[flip]
    seen = []

    def go(P):
        P = np.atleast_2d(np.array(P))
        seen.append((len(o.getInputDOE()), P))
        return [[1.0 if S.surf(p)[0] > det else 0.0] for p in P]

    f = ot.PythonFunction(dim, 1, lambda p: go(p)[0], func_sample=go)
    o = otpod.AdaptiveHitMissPOD(x, z.reshape(-1, 1), f, more)
    lw, _ = law("user" if s % 2 else "wide", dim)
    o.setDistribution(lw)
    o.setCandidateSize(case["cand"])
    o.setSamplingSize(50)
    o.setVerbose(False)
    lo, hi = case["window"]
    o.setPMin(lo)
    o.setPMax(hi)
    o.setClassifierParameters([[case["trees"]], [None], [2], [0]])
    cands = sobol(lw, case["cand"], x)
    S.run(o, s)
    D, Z = np.array(o.getInputDOE()), np.array(o.getOutputDOE()).ravel()
    evs = []
    cut, now = len(x), forest(case, x, z)
    gs = [lambda X, g=now: g(X)[:, 1]]
    m = None
    for size in sorted({k for k, _ in seen}):
        batch = np.vstack([P for k, P in seen if k == size])
        if size != cut:
            return evs + [{"op": "holds", "what": "points_are_evaluated_in_the_order_they_are_added", "ok": False}]
        p = gs[-1](np.array(cands))
        ch = [index(cands, b) for b in batch]
        evs.append({"op": "batch", "chosen": ch, "probs": fxs(p), "lo": fx(lo), "hi": fx(hi), "tol": 1000, "case": str(case)})
        if 0 in ch:
            return evs
        cut = min(len(D), size + len(batch))
        new = [index(cands, d) for d in D[size:cut]]
        cands = [q for i, q in enumerate(cands) if i + 1 not in new]
        now, z_ = forest(case, D[:cut], Z[:cut]), Z[:cut]
        ms = [1.0 * confusion_matrix(z_, g(D[:cut]) >= 0.5) for g in gs]
        if any((t.sum(axis=0) == 0).any() for t in ms):
            return evs
        m = sum(t / t.sum(axis=0) for t in ms) / len(ms)
        if m[1, 1] - m[1, 0] < 0.02:
            return evs
        gs.append(aggregated(now, m))
    if m is None or cut != len(D):
        return evs + [{"op": "holds", "what": "points_are_evaluated_in_the_order_they_are_added", "ok": cut == len(D)}]
    X = np.vstack([D, np.array(lw.getSample(25))])
    evs.append({"op": "ref", "what": "confusion_matrix_of_the_enriched_design", "got": fxs(np.array(o.getConfusionMatrix()).ravel()), "ref": fxs(m.ravel()), "tol": [100] * 4})
    evs.append({"op": "ref", "what": "classifier_of_the_enriched_design", "got": fxs(np.array(o.getClassifier()(X))[:, 1]), "ref": fxs(gs[-1](X)), "tol": [1000] * len(X)})
    return evs


# ----------------------------------------------------- covariance parameters
def loo_q2(X, Y, cov, basis):
    """predictivity factor by leave one out, covariance parameters given"""
    u = (X - X.mean(axis=0)) / X.std(axis=0, ddof=1)
    K = np.array(cov.discretize(ot.Sample(u)))
    F = np.hstack([np.array(basis.build(i)(ot.Sample(u))) for i in range(basis.getSize())])
    p = F.shape[1]
    B = np.linalg.inv(np.block([[K, F], [F.T, np.zeros((p, p))]]))[:len(Y), :len(Y)]
    return 1 - np.mean((B @ Y / np.diag(B)) ** 2) / np.var(Y)


def loglik(X, Y, cov, basis):
    u = (X - X.mean(axis=0)) / X.std(axis=0, ddof=1)
    f = ot.GaussianProcessFitter(ot.Sample(u), ot.Sample(Y.reshape(-1, 1)), cov, basis)
    return lambda t: f.getReducedLogLikelihoodFunction()(t)[0]


def basis0(dim):
    v = ["x%d" % i for i in range(dim)]
    return ot.Basis([ot.SymbolicFunction(v, ["1"]), ot.SymbolicFunction(v, ["x0"])])


def multistart(X, Y, cov, basis, starts):
    """the documented estimation of the covariance parameters"""
    dim = X.shape[1]
    P = ot.LowDiscrepancyExperiment(ot.SobolSequence(), ot.JointDistribution([ot.Uniform(0.001, 50.0)] * dim), max(starts, 1)).generate()
    u = (X - X.mean(axis=0)) / X.std(axis=0, ddof=1)
    f = ot.GaussianProcessFitter(ot.Sample(u), ot.Sample(Y.reshape(-1, 1)), cov or ot.SquaredExponential([1] * dim), basis)
    f.setOptimizationBounds(ot.Interval([0.001] * dim, [50.0] * dim))
    f.setOptimizationAlgorithm(ot.MultiStart(ot.TNC(), P))
    f.run()
    return f


def do_theta(case):
    """signal studies: covariance scales are kept while the model predicts well, estimated again otherwise"""
    s, dim = case["s"], case["dim"]
    r = np.random.RandomState(s)
    n = case["n"]
    x = np.c_[r.uniform(0.1, 0.8, n)[:, None], r.uniform(-1, 0.9, (n, dim - 1))]
    x[0, 0], x[1, 0] = 0.1, 0.8
    G = lambda v, k: S.surf(v)[0] + k * np.sin(9 * v[0] + case["freq"] * v[1])
    rough = case["rough"]
    if case["aim"]:         # the roughness for which the predictivity is close to the limit
        def q2(k):
            Y = np.array([G(v, k) for v in x])
            try:
                f = multistart(x, Y, None, basis0(dim), case["start"])
            except RuntimeError:    # no local search succeeded
                return 100
            return loo_q2(x, Y, f.getResult().getCovarianceModel(), basis0(dim))

        rough = min(np.geomspace(0.15, 12, 14), key=lambda k: abs(q2(k) - case["aim"]))
    g = lambda v: G(v, rough)
    y = np.array([g(v) for v in x])
    seen = []

    def go(p):
        seen.append(ot.CovarianceModel(o.getKrigingResult().getCovarianceModel()))
        return [g(np.array(p))]

    more = 1 + s % 2
    o = S.build("adaptive", x, y.reshape(-1, 1), float(np.median(y)), model=ot.PythonFunction(dim, 1, go), more=more, sim=5, sampling=20, cand=4, start=case["start"],
                sizes=[0.3, 0.5])
    try:
        S.run(o, s)
    except RuntimeError as e:
        if "local searches" not in str(e):
            raise
        return [{"op": "holds", "what": "no_reference", "ok": True}]
    if len(seen) != more:
        return [{"op": "holds", "what": "evaluated_once", "ok": False}]
    D, Z = np.array(o.getInputDOE()), np.array(o.getOutputDOE()).ravel()
    res = o.getKrigingResult()
    basis = res.getBasis()
    seen.append(res.getCovarianceModel())
    evs = []
    for j in range(more):
        X, Y = D[:n + j + 1], Z[:n + j + 1]
        before, cov = seen[j], seen[j + 1]
        c0, c1 = [np.linalg.cond(np.array(k.discretize(ot.Sample((X - X.mean(axis=0)) / X.std(axis=0, ddof=1))))) for k in (before, cov)]
        if c0 > 1e11:       # leave one out cannot be computed accurately
            continue
        old, new = np.array(before.getScale()), np.array(cov.getScale())
        L = loglik(X, Y, cov, basis)
        # what the documented estimation (multi start) reaches from here
        try:
            f = multistart(X, Y, before, basis, case["start"])
        except RuntimeError:
            continue
        best = L(np.array(f.getResult().getCovarianceModel().getScale()))
        last = j == more - 1
        evs.append({"op": "theta", "q2": fx(loo_q2(X, Y, before, basis)), "old": fxs(old), "new": fxs(new), "here": fx(L(new)), "best": fx(best),
                    "fixed": case["start"] == 0, "sure": bool(last and c1 < 1e9), "reported": fx(o.getQ2()), "final": fx(loo_q2(X, Y, cov, basis)), "case": str(case)})
    return evs or [{"op": "holds", "what": "no_reference", "ok": True}]
