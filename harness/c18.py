"""C18 Sobol indices of a POD."""
import copy
import math

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
from scipy import stats

import otpod
import studies as S
from common import call, fx, fxs

PALETTE = [0.1, 0.42, 0.5, 0.6, 0.9]
METHODS = ("Saltelli", "Martinez", "Jansen", "MauntzKucherenko")
phi = stats.norm.cdf


def signal(u):
    """u[:,0] in [0,1], the others in [-1,1]"""
    v = 20.0 * u[:, 0] + 3.0 * u[:, 1] + 1.0 * u[:, 2] + 0.8 * u[:, 1] * u[:, 2]
    if u.shape[1] > 3:
        v = v + 1.2 * u[:, 3] * u[:, 2]
    return v


class Live:
    def __init__(self, case):
        self.c = c = case
        self.d = c["dim"] - 1
        r = np.random.RandomState(c["s"] + 11)
        n = c["n"]
        u = np.c_[r.uniform(0, 1, n), r.uniform(-1, 1, (n, self.d))]
        u[:2, 0] = 0.01, 0.99
        u[2:4, 0], u[2:4, 1:] = (0.09, 0.91), 0.0
        y = signal(u) + c["noise"] * r.randn(n)
        x = u
        self.m, self.sd = np.zeros(c["dim"]), np.ones(c["dim"])
        if c["kind"] != "chaos":            # inputs already normalised
            self.m, self.sd = u.mean(axis=0), u.std(axis=0, ddof=1)
            x = (u - self.m) / self.sd
        self.det = 10.0
        kw = {"degree": 2} if c["kind"] == "chaos" else {"start": 0}
        scale = raw = lambda v: v
        if c.get("box"):        # what is given is transformed into scale(y)
            scale, raw = (lambda v: v / 10.0 + 1), (lambda v: (0.5 * (v / 10.0 + 1) + 1) ** 2)
            kw["box"] = 0.5
        if c["kind"] == "adaptive":
            kw["model"] = ot.PythonFunction(c["dim"], 1, lambda t: [float(raw(signal(np.array([t]) * self.sd + self.m)[0]))])
        ns = None
        if c.get("cens"):
            ns = (raw(0.0), raw(21.0))
        o = S.build(c["kind"], x, raw(y).reshape(-1, 1), raw(self.det), *(ns or ()), sim=2, sampling=20, **kw)
        if ns:
            k = (y > 0.0) & (y < 21.0)
            x, y = x[k], y[k]
        y, self.det = scale(y), scale(self.det)
        self.pal = (np.array(PALETTE) - self.m[0]) / self.sd[0]
        o.setDefectSizes(list(self.pal))
        if c["kind"] != "chaos":
            o.setCovarianceModel(ot.AbsoluteExponential([4.0] * c["dim"], [(6.0 if c["s"] % 2 else 2.0) * (0.1 if c.get("box") else 1)]))
        S.run(o, c["s"])
        self.o = o
        self.x, self.y = x, y
        S.seed(c["s"])
        self.N = c["N"]
        self.so = otpod.SobolIndices(o, self.N)
        if c["kind"] == "chaos":
            self.so.setSimulationSize(c["sim"])
        self.law = self.laws(1)
        self.evs = [dict(self.state(), op="start", ok=True)]

    def laws(self, k):
        """laws of the other inputs, on the scale of the study"""
        lo, hi = -np.ones(self.d), np.ones(self.d)
        if k == 1:
            X = self.x[:, 1:]
            return ot.JointDistribution([ot.Uniform(float(X[:, j].min()), float(X[:, j].max())) for j in range(self.d)])
        sc = lambda j, v: float((v - self.m[j + 1]) / self.sd[j + 1])
        if k == 2:
            lo[0], hi[0] = -0.2, 0.2
            return ot.JointDistribution([ot.Uniform(sc(j, lo[j]), sc(j, hi[j])) for j in range(self.d)])
        return ot.JointDistribution([ot.TruncatedNormal(sc(j, 0.2 if j == 0 else 0.0), 0.45 / self.sd[j + 1], sc(j, -1), sc(j, 1)) for j in range(self.d)])

    # ------------------------------------------------------------ reference POD
    def ref(self, z, k):
        """probability that the metamodel exceeds the threshold at size k (0 based), and the margin in standard deviations"""
        p = np.c_[np.full(len(z), self.pal[k]), z]
        if self.c["kind"] == "chaos":
            res = self.o.getPolynomialChaosResult()
            basis, tr = res.getReducedBasis(), res.getTransformation()
            coef = np.array(res.getCoefficients()).ravel()
            if not hasattr(self, "cov"):
                B = np.column_stack([np.array(b(tr(self.x))).ravel() for b in basis])
                self.s2 = float(np.sum((self.y - B @ coef) ** 2)) / (len(self.y) - len(coef) - 1)
                self.cov = np.array(self.o.getCoefficientDistribution().getCovariance())
            P = np.column_stack([np.array(b(tr(p))).ravel() for b in basis])
            m = P @ coef
            sd = np.sqrt(self.s2 + np.einsum("ij,jk,ik->i", P, self.cov, P))
        else:
            m, sd = self.parts(k, z)
        t = (m - self.det) / sd
        return phi(t), t

    def parts(self, k, z):
        p = np.c_[np.full(len(z), self.pal[k]), z]
        g = ot.GaussianProcessConditionalCovariance(self.o.getKrigingResult())
        m = np.array(g.getConditionalMean(p)).ravel()
        sd = np.sqrt(np.abs([g.getConditionalCovariance(q)[0, 0] for q in p]))
        return m, np.maximum(sd, 1e-12)

    def known(self, z, k, first):
        """what a kriging study gives: the standard deviation of its first size everywhere (known finding)"""
        t = (self.parts(k, z)[0] - self.det) / self.parts(first, z)[1]
        return phi(t), t

    def moving(self, before):
        """numbers of the sizes that certainly do not vary, and certainly do, under the current law"""
        z = np.array(self.law.getSample(3000 if self.c["kind"] == "chaos" else 300))
        flat, moving = [], []
        for k in range(5):
            both = [self.ref(z, k)]
            if self.c["kind"] != "chaos":
                both.append(self.known(z, k, min(before) - 1))
            if all((t > 9.5).all() or (t < -9.5).all() for _, t in both):
                flat.append(k + 1)
            elif all(np.ptp(np.quantile(p, [0.15, 0.85])) > 0.1 for p, _ in both):
                moving.append(k + 1)
        return flat, moving

    # ------------------------------------------------------------------ reading
    def nums(self, v):
        return [next((k + 1 for k in range(5) if abs(self.pal[k] - t) < 1e-9), 0) for t in np.atleast_1d(v)]

    def noise(self):
        """is the variance of the POD only rounding noise at one of the sizes?"""
        z = np.array(self.law.getSample(300))
        return any(t and float(np.var(self.ref(z, t - 1)[0])) < 1e-15 for t in self.nums(self.so.getDefectSizes()))

    def state(self):
        ok, sa = call(self.so.getSensitivityResult)
        n, name = 0, ""
        if ok:
            while n < 10:
                fine, why = call(sa.getFirstOrderIndices, n)
                if not fine:
                    if n == 0 and "null" in str(why) and self.noise():
                        n = -1      # OpenTURNS refuses them all, see values()
                    break
                n += 1
            name = sa.getClassName().replace("SensitivityAlgorithm", "")
        return {"sizes": self.nums(self.so.getDefectSizes()), "n": n, "class": name, "method": self.so.getSensitivityMethod(), "case": str(self.c)[:200]}

    def step(self, h):
        k, so = h["k"], self.so
        e = {"op": k, "s": sorted(h["s"]), "v": h["v"]}
        if k == "sizes":
            v = [float(self.pal[t - 1]) for t in e["s"]]
            ok, _ = call(so.setDefectSizes, v[::-1] if len(self.evs) % 2 else np.array(v))
        elif k == "method":
            ok, _ = call(so.setSensitivityMethod, h["v"])
        elif k == "law":
            self.law = self.laws(e["s"][0])
            ok, _ = call(so.setDistribution, self.law)
        elif k == "bad_sizes":
            ok, _ = call(so.setDefectSizes, [float(self.pal[2]), float(self.pal[4]) * 3 + 5])
        elif k == "bad_method":
            ok, _ = call(so.setSensitivityMethod, "saltelli")
        elif k == "bad_law":
            ok, _ = call(so.setDistribution, ot.JointDistribution([ot.Normal()] * (self.d + 1)))
        elif k == "ask":
            ok = True
        else:
            before = self.nums(so.getDefectSizes())
            if 0 in before:
                return False
            flat, moving = self.moving(before)
            seen = []
            real = {}
            for m in METHODS:       # what is given to the estimator of openturns
                a = m + "SensitivityAlgorithm"
                real[a] = getattr(ot, a)

                def rec(*args, cls=real[a]):
                    if len(args) == 3:
                        seen.append((np.array(args[0]), np.array(args[1]), int(args[2])))
                    return cls(*args)
                setattr(ot, a, rec)
            try:
                S.seed(self.c["s"] + len(self.evs))
                ok, _ = call(so.run)
            finally:
                for a in real:
                    setattr(ot, a, real[a])
            e.update(flat=flat, moving=moving)
        self.evs.append(dict(self.state(), ok=ok, **e))
        if k == "run" and ok:
            self.ran = list(np.atleast_1d(so.getDefectSizes())), so.getSensitivityMethod()
            self.values(seen, min(before) - 1, moving)
        if k == "ask":
            if call(so.getSensitivityResult)[0]:
                if not getattr(self, "skip", False):
                    self.draws()
            else:
                for f in (so.drawFirstOrderIndices, so.drawTotalOrderIndices, so.drawAggregatedIndices):
                    self.evs.append({"op": "refused", "what": "graph_before_run", "ok": call(f)[0]})
                plt.close("all")
        return True

    def values(self, seen, first, moving):
        so, c = self.so, self.c
        ids = self.nums(so.getDefectSizes())
        if 0 in ids:
            return
        sa = so.getSensitivityResult()
        for k in range(len(ids)):
            if not call(sa.getFirstOrderIndices, k)[0]:
                # OpenTURNS refuses a variance which is only rounding noise
                self.evs.append({"op": "refused", "what": "indices_of_a_size_with_variance", "ok": not self.noise()})
                self.skip = True
                return
        self.skip = False
        F = [list(sa.getFirstOrderIndices(k)) for k in range(len(ids))]
        T = [list(sa.getTotalOrderIndices(k)) for k in range(len(ids))]
        A, B = list(sa.getAggregatedFirstOrderIndices()), list(sa.getAggregatedTotalOrderIndices())
        cls = getattr(ot, so.getSensitivityMethod() + "SensitivityAlgorithm")

        def index(what, got, ref, tol, key=None):
            sc = lambda v: [float(np.clip(t, -100, 100)) for t in np.ravel(v)]
            self.evs.append({"op": "index", "what": what, "kind": c["kind"], "got": fxs(sc(got)), "ref": fxs(sc(ref)), "tol": [int(min(t, 0.9) * 1e9) + 2 for t in np.ravel(tol)], "case": str(c)[:200]})
            if key:
                self.evs[-1]["key"] = key

        # statistics: the same estimator on the reference POD with other draws
        reps = []
        for k in range(25 if c["kind"] == "chaos" else 8):
            D = np.array(ot.SobolIndicesExperiment(self.law, self.N, False).generate())
            O = np.column_stack([self.ref(D, t - 1)[0] for t in ids])
            if c["kind"] == "chaos":     # the POD itself is simulated
                O = np.random.binomial(c["sim"], np.clip(O, 0, 1)) / float(c["sim"])
            if (O[:self.N].var(axis=0) < 1e-9).any():
                continue
            if c["kind"] != "chaos" and ids != [first + 1]:
                break           # known finding: see below
            fine, a = call(cls, D, O, self.N)
            if not fine:
                continue
            reps.append([[list(a.getFirstOrderIndices(t)) for t in range(len(ids))], [list(a.getTotalOrderIndices(t)) for t in range(len(ids))],
                         list(a.getAggregatedFirstOrderIndices()), list(a.getAggregatedTotalOrderIndices())])
        if len(reps) > 5:
            for j, (what, got) in enumerate((("first_order", F), ("total_order", T), ("aggregated_first_order", A), ("aggregated_total_order", B))):
                R, got = np.array([v[j] for v in reps]), np.array(got)
                if what.startswith("agg"):
                    if not set(ids) <= set(moving):      # heavy tailed estimates
                        continue
                else:
                    keep = [t for t in range(len(ids)) if ids[t] in moving]
                    if not keep:
                        continue
                    R, got = R[:, keep], got[keep]
                index(what + "_statistics", got, R.mean(axis=0), 8 * R.std(axis=0, ddof=1) * math.sqrt(1 + 1.0 / len(R)) + 0.02)
        # the evaluations given to the estimator, when they can be seen
        if len(seen) == 1 and seen[0][1].shape == (seen[0][0].shape[0], len(ids)):
            D, O, n = seen[0]
            index("size_of_the_design", [n / 1e4], [self.N / 1e4], [0])
            a = cls(D, O, n)
            for t in range(len(ids)):
                index("first_order", F[t], list(a.getFirstOrderIndices(t)), [1e-7] * self.d)
                index("total_order", T[t], list(a.getTotalOrderIndices(t)), [1e-7] * self.d)
                p, _ = self.ref(D, ids[t] - 1)
                if c["kind"] == "chaos":
                    # simulated with sim draws; coefficients common to all points
                    tol = 7.5 * np.sqrt(np.maximum(p * (1 - p), 5.0 / c["sim"]) / c["sim"])
                else:
                    tol = np.full(len(p), 1e-6)
                worst = np.argsort(tol - np.abs(O[:, t] - p))[:40]
                key = None
                if c["kind"] != "chaos" and ids[t] - 1 != first and np.abs(self.known(D, ids[t] - 1, first)[0] - O[:, t]).max() < 1e-6:
                    key = "kriging Sobol indices use the standard deviation of the first defect size"
                index("pod_at_the_size", O[worst, t], p[worst], tol[worst], key)
            for j in range(self.d):      # law of the inputs
                q = np.array([0.1, 0.3, 0.5, 0.7, 0.9])
                v = [self.law.getMarginal(j).computeQuantile(float(t))[0] for t in q]
                got = [float(np.mean(D[:n, j] <= t)) for t in v]
                index("law_of_the_inputs", got, q, 6.5 * np.sqrt(q * (1 - q) / n) + 1e-3)

    def draws(self):
        so = self.so
        sa = so.getSensitivityResult()
        sizes, method = self.ran           # of the last run, whatever has been set since
        n = len(sizes)
        for f, g in ((so.drawFirstOrderIndices, sa.getFirstOrderIndices), (so.drawTotalOrderIndices, sa.getTotalOrderIndices)):
            label = ["in %d" % j for j in range(self.d)] if len(self.evs) % 2 else None
            fig, ax = f(label)
            ls = [t for t in ax.get_lines() if len(t.get_xdata()) == n]
            want = label or list(ot.Description.BuildDefault(self.d, "X"))
            q = [float(np.clip(v, -100, 100)) for k in range(self.d) for v in [g(t)[k] for t in range(n)]]
            self.evs.append({"op": "drawn", "title": (lambda t: method in t and not any(m in t for m in METHODS if m != method))(ax.get_title()), "x": fxs([float(v) for t in ls for v in np.ravel(t.get_xdata())]), "wx": fxs(sizes * self.d),
                             "y": fxs([float(np.clip(v, -100, 100)) for t in ls for v in np.ravel(t.get_ydata())]), "wy": fxs(q), "labels": [t.get_label() for t in ls] == want})
        ok, _ = call(so.drawFirstOrderIndices, ["a"] * (self.d + 1))
        self.evs.append({"op": "refused", "what": "labels", "ok": ok})
        plt.close("all")


def play(case):
    live = Live(case)
    for h in case["h"]:
        if not live.step(h):
            break
    return live.evs


def refusals(case):
    evs = []
    x, y = S.surf_data(30, 3, 4, 1.0)
    Y = y.reshape(-1, 1)

    def make(kind, X):
        o = S.build(kind, X, Y, float(np.median(y)), sim=2, sampling=20)
        S.run(o, 1)
        return o
    for kind in ("binomial", "gauss", "qr"):
        evs.append({"op": "refused", "what": "other_study", "ok": call(otpod.SobolIndices, make(kind, x[:, :1]), 50)[0]})
    for kind in ("chaos", "kriging"):
        evs.append({"op": "refused", "what": "one_other_input", "ok": call(otpod.SobolIndices, make(kind, x[:, :2]), 50)[0]})
        evs.append({"op": "refused", "what": "study_without_run", "ok": call(otpod.SobolIndices, S.build(kind, x, Y, 20.0, sim=2, sampling=20), 50)[0]})
        # 4 inputs in all: accepted
        evs.append({"op": "refused", "what": "accepted_study", "ok": not call(otpod.SobolIndices, make(kind, x), 50)[0]})
    s = otpod.PODSummary(x, Y, 20.0)
    evs.append({"op": "refused", "what": "other_study", "ok": call(otpod.SobolIndices, s, 50)[0]})
    return evs


def run(ctx):
    pick = ctx.pick
    inv = dict(invariants=["NothingFlat", "SizesKept", "NoResultWithoutRun"], properties=["OneResultPerSize", "SettersKeepResult"],
               timeout=900)
    const = dict(Sizes="1..5", Methods="{%s}" % ", ".join('"%s"' % m for m in METHODS), Laws="1..3", Flat="{<<1, 1>>, <<1, 2>>, <<1, 3>>, <<5, 1>>, <<5, 2>>, <<5, 3>>, <<4, 2>>}")
    short = ctx.cases("Sobol", constants=dict(const, MaxLen="2"), **inv)
    some = ctx.cases("Sobol", constants=dict(const, MaxLen="7"), simulate=pick(3000, 12000), depth=9, **inv)
    if ctx.thorough:
        ctx.cases("Sobol", constants=dict(const, MaxLen="3"), **inv)
    for s in (short, some):
        ctx.rng.shuffle(s)
    some = [c for c in some if sum(h["k"] == "run" for h in c["h"]) >= 2]
    cases = []
    cfg = [dict(kind="chaos", dim=3, noise=0.01), dict(kind="chaos", dim=3, noise=0.8), dict(kind="kriging", dim=3, noise=0.3), dict(kind="chaos", dim=4, noise=0.6), dict(kind="adaptive", dim=3, noise=0.3), dict(kind="kriging", dim=4, noise=0.1),
           dict(kind="chaos", dim=3, noise=0.3, box=True), dict(kind="chaos", dim=3, noise=0.6, box=True, cens=True), dict(kind="kriging", dim=3, noise=0.3, box=True), dict(kind="adaptive", dim=3, noise=0.3, box=True)]
    plain = [[{"k": "method", "s": [], "v": m}, {"k": "law", "s": [l], "v": ""}, {"k": "run", "s": [], "v": ""}, {"k": "ask", "s": [], "v": ""}] for m in METHODS for l in (1, 2, 3)]
    hs = plain + [c["h"] for c in short[:pick(40, 200)]] + [c["h"] for c in some[:pick(60, 600)]]
    for i, h in enumerate(hs):
        for k in range(pick(1, 2)):
            d = cfg[(i + k) % len(cfg)]
            cases.append(dict(dict(n=60, s=i, N=(200, 300, 500)[i % 3] if d["kind"] == "chaos" else 120, sim=(200, 400)[i % 2], h=h), **d))
    ctx.rng.shuffle(cases)
    ctx.extra["histories"] = len(cases)
    traces = ctx.replay(play, cases, limit=pick(300, 600)) + ctx.replay(refusals, [0], limit=100)
    flat = [e for t in traces for e in t]
    ctx.extra["runs"] = sum(e["op"] == "run" for e in flat)
    ctx.extra["runs_refused_because_nothing_varies"] = sum(e["op"] == "run" and not e["ok"] for e in flat)
    ctx.extra["runs_dropping_sizes"] = sum(e["op"] == "run" and e["ok"] and bool(e["flat"]) for e in flat)
    ctx.extra["pods_at_a_size_compared"] = sum(e["op"] == "index" and e["what"] == "pod_at_the_size" for e in flat)
    ctx.extra["of_which_known_finding"] = sum("key" in e for e in flat)
    ctx.extra["designs_seen"] = sum(e["op"] == "index" and e["what"] == "size_of_the_design" for e in flat)
    ctx.sample({k: v for k, v in cases[0].items()})
    ctx.validate("SobolTrace", traces, broken=False)
    good = next(t for t in traces if any(e["op"] == "index" for e in t) and t[0]["op"] == "start")

    def bad(op, f):
        t = copy.deepcopy(good)
        f(next(e for e in t if e["op"] == op and e.get("ok", True)))
        ctx.must_reject("SobolTrace", [t], broken=False)

    bad("index", lambda e: e["got"].__setitem__(0, fx(7.0)))
    bad("run", lambda e: e["sizes"].pop())
    bad("run", lambda e: e.__setitem__("n", e["n"] + 1))
    return ctx.finish()
