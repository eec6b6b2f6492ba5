"""C20 perturbation study of a POD."""
import copy
import math

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot

import otpod
import studies as S
from c19 import density
from common import call, fx, fxs

LOW, HIGH = 0.001, 0.999


def signal(u):
    v = 20.0 * u[:, 0] + 3.0 * u[:, 1] + 1.2 * u[:, 2]
    if u.shape[1] > 3:
        v = v + 0.8 * u[:, 3] + 0.3 * u[:, 3] * u[:, 1]
    return v


def kind_of(law):
    return ot.Distribution(law)


class Live:
    def __init__(self, case):
        self.c = c = case
        self.d = d = c["dim"] - 1
        r = np.random.RandomState(c["s"] + 3)
        n = c["n"]
        u = np.c_[r.uniform(0, 1, n), r.uniform(-1, 1, (n, d))]
        u[:2, 0] = 0.005, 0.995
        y = signal(u) + 25.0 + 0.3 * r.randn(n)
        self.det = 35.0
        box = c["box"]
        kw = {"degree": 2} if c["kind"] == "chaos" else {"start": 0}
        if c["kind"] == "adaptive":
            kw["model"] = ot.PythonFunction(c["dim"], 1, lambda t: [float(signal(np.array([t]))[0]) + 25.0])
        o = S.build(c["kind"], u, y.reshape(-1, 1), self.det, sim=2, sampling=20, box=box, **kw)
        if c["kind"] != "chaos":
            o.setCovarianceModel(ot.AbsoluteExponential([4.0] * c["dim"], [3.0]))
        o.setDefectSizes([0.2, 0.5, 0.9])
        S.run(o, c["s"])
        self.o, self.x = o, u
        lam = o.getBoxCoxParameter() if box is not False else None
        self.thr = self.det if lam is None else (math.log(self.det) if abs(lam) < 1e-12 else (self.det**lam - 1) / lam)
        self.laws = [self.law_number(k) for k in (1, 2, 3)]
        self.law = 1
        self.pal = self.palette()
        o.setDefectSizes(self.pal)
        S.run(o, c["s"])
        S.seed(c["s"] + 1)
        cls = otpod.PLIMean if c["what"] == "mean" else otpod.PLIVariance
        # the first perturbation is no perturbation at all
        if c["what"] == "mean":
            self.delta = [0.0, 0.5, -0.8][: c["nd"]] if c["scaled"] else [0.01, 0.2, -0.15][: c["nd"]]
        else:
            self.delta = [0.0, 0.2, -0.1][: c["nd"]] if c["scaled"] else [0.25, 0.1, 0.3][: c["nd"]]
        given = (self.delta, np.array(self.delta), [[t] * d for t in self.delta])[c["s"] % 3]
        default = c["scaled"] and c["s"] % 2
        self.p = cls(o, given) if default else cls(o, given, c["scaled"])
        self.N = c["N"]
        if c["given"]:
            self.p.setDistribution(self.laws[0])
        self.p.setSamplingSize(self.N)
        self.evs = [dict(self.state(), op="start", ok=True)]

    def law_number(self, k):
        d = self.d
        if k == 1:
            if self.c["given"]:
                return ot.JointDistribution([ot.Normal(0.1, 0.4)] + [ot.Uniform(-0.8, 1.0)] * (d - 1))
            return ot.JointDistribution([ot.Uniform(float(self.x[:, j].min()), float(self.x[:, j].max())) for j in range(1, d + 1)])
        if k == 2:
            return ot.JointDistribution([ot.Uniform(-1.0, 0.6)] + [ot.Normal(0.2, 0.3)] * (d - 1))
        return ot.JointDistribution([ot.Normal(0.3, 0.15)] * d)

    # ---------------------------------------------------------- reference POD
    def meta(self, z):
        """signal of the metamodel, transformed as in the study"""
        if self.c["kind"] == "chaos":
            return np.array(self.o.getPolynomialChaosResult().getMetaModel()(z)).ravel()
        x = (z - self.mu()) / self.sig()
        return np.array(self.o.getKrigingResult().getMetaModel()(x)).ravel()

    def mu(self):
        return np.array(self.o.getInputDOE()).mean(axis=0) if self.c["kind"] == "adaptive" else self.x.mean(axis=0)

    def sig(self):
        return np.array(self.o.getInputDOE()).std(axis=0, ddof=1) if self.c["kind"] == "adaptive" else self.x.std(axis=0, ddof=1)

    def sample(self, n=20000):
        r = ot.RandomGenerator.GetState()
        ot.RandomGenerator.SetSeed(977)
        z = np.array(self.laws[self.law - 1].getSample(n))
        ot.RandomGenerator.SetState(r)
        return z

    def above(self, a, z):
        return self.meta(np.c_[np.full(len(z), a), z]) > self.thr

    def palette(self):
        """six sizes: certain not to be detected, about 0.001, 0.2, 0.7, about 0.999, certain"""
        z = self.sample()
        lo, hi = self.x[:, 0].min(), self.x[:, 0].max()
        out = []
        for p in (None, 0.0012, 0.2, 0.7, 0.9988, None):
            if p is None:
                out.append(lo if not out else hi)
                continue
            a, b = lo, hi
            for _ in range(12):
                m = (a + b) / 2
                a, b = (m, b) if self.above(m, z).mean() < p else (a, m)
            out.append((a + b) / 2)
        lo = float(np.round(lo + 1e-4, 6))
        out[0] = lo
        out[-1] = hi - 1e-4
        for i in range(1, 6):
            out[i] = max(out[i], out[i - 1] + 1e-3)
        return [float(np.round(t, 6)) for t in out]

    # ------------------------------------------------------------------ reading
    def nums(self, v):
        return [next((k + 1 for k in range(6) if abs(self.pal[k] - t) < 1e-9), 0) for t in np.atleast_1d(v)]

    def state(self):
        p = self.p
        T = np.array(p.getIndices(), dtype=float)
        sizes = self.nums(p.getDefectSizes())
        nan = []
        if T.ndim == 3:
            for k in range(T.shape[2]):
                b = np.isnan(T[:, :, k])
                nan.append("all" if b.all() else ("some" if b.any() else "none"))
        obj = []
        for k in range(len(sizes)):
            ok, v = call(p.getPLIObject, k)
            obj.append(bool(ok and call(v.getIndices)[0] if ok and not isinstance(v, type) else ok))
        return {"sizes": sizes, "shape": list(T.shape), "nd": len(self.delta), "dim": self.d, "nan": nan, "obj": obj, "case": str(self.c)[:250]}

    def step(self, h):
        k, p = h["k"], self.p
        e = {"op": k, "s": sorted(h["s"])}
        if k == "sizes":
            v = [self.pal[t - 1] for t in e["s"]]
            if not hasattr(self, "_n"):
                self._n = 0
            self._n += 1
            ok, _ = call(p.setDefectSizes, (v[::-1], np.array(v), [[t] for t in v])[self._n % 3])
        elif k == "law":
            self.law = e["s"][0]
            ok, _ = call(p.setDistribution, self.laws[self.law - 1])
        elif k == "sampling":
            self.N = {1000: 2000, 2000: 500, 500: 1000}[self.N]
            ok, _ = call(p.setSamplingSize, self.N)
            ok = ok and p.getSamplingSize() == self.N
        elif k == "bad_sizes":
            ok, _ = call(p.setDefectSizes, [self.pal[2], self.pal[5] + 0.5])
        elif k == "bad_law":
            ok, _ = call(p.setDistribution, ot.JointDistribution([ot.Normal()] * (self.d + 1)))
        elif k == "ask":
            ok = True
        else:
            seen, real = [], ot.ProbabilitySimulationAlgorithm

            def rec(*a):
                seen.append(real(*a))
                return seen[-1]
            ot.ProbabilitySimulationAlgorithm = rec
            try:
                S.seed(self.c["s"] + len(self.evs))
                ok, _ = call(p.run)
            finally:
                ot.ProbabilitySimulationAlgorithm = real
            ids = self.nums(p.getDefectSizes())
            z = self.sample()
            ref = [float(self.above(self.pal[t - 1], z).mean()) if t else 0.5 for t in ids]
            cl = [2] * len(ids)
            self.pf = None
            if len(seen) == len(ids) and all(call(a.getResult)[0] for a in seen):
                self.pf = [a.getResult().getProbabilityEstimate() for a in seen]
                cl = [-1 if q <= LOW else (1 if q >= HIGH else 0) for q in self.pf]
                # equal to a limit but for a rounding: not decided
                cl = [2 if any(abs(q - b) < 1e-9 and q != b for b in (LOW, HIGH)) else c for c, q in zip(cl, self.pf)]
            e.update({"class": cl, "sure": [t for t, q in zip(ids, ref) if 0.03 < q < 0.97], "never": []})
            self.ref = ref
        self.evs.append(dict(self.state(), ok=bool(ok), **e))
        if k == "run" and ok:
            self.values()
        if k == "ask":
            self.asked()

    def near(self, what, got, ref, tol):
        cut = lambda v: [float(np.clip(t, -1e8, 1e8)) for t in np.ravel(v)]
        got, ref = cut(got), cut(ref)
        self.evs.append({"op": "near", "what": what, "got": fxs(got), "ref": fxs(ref), "tol": [int(min(t, 0.9) * 1e9) + 2 for t in np.broadcast_to(np.ravel(tol), (len(ref),))], "case": str(self.c)[:200]})

    def values(self):
        p, c = self.p, self.c
        T = np.array(p.getIndices())
        ids = self.nums(p.getDefectSizes())
        if T.shape != (len(self.delta), self.d, len(ids)) or 0 in ids:
            return
        if self.pf is not None:
            self.near("number_of_detections", self.pf, self.ref, [6.5 * math.sqrt(max(q * (1 - q), 1e-3) * (1 / self.N + 1 / 20000.0)) + 1e-3 for q in self.ref])
            # the sampling size is the current one
            self.near("sampling_size", [q * self.N - round(q * self.N) for q in self.pf], [0.0] * len(ids), 1e-6)
        law = self.laws[self.law - 1]
        z = self.sample()
        for i, t in enumerate(ids):
            if np.isnan(T[:, :, i]).any():
                continue
            ok, ob = call(p.getPLIObject, i)
            if not ok:
                continue
            self.near("table_is_the_one_of_the_object", T[:, :, i], ob.getIndices(), 1e-9)
            P = np.array(ob.getPerturbedProbabilityEstimate())
            new = np.array(ob.getDeltaSample())
            b = self.above(self.pal[t - 1], z)
            for j in range(self.d):
                m, sd = law.getMarginal(j).getMean()[0], law.getMarginal(j).getStandardDeviation()[0]
                L = ot.Distribution(law.getMarginal(j))
                f0 = np.array(L.computePDF(z[:, j:j + 1])).ravel()
                for k, dl in enumerate(self.delta):
                    if c["what"] == "mean":
                        want = m + dl * sd if c["scaled"] else dl
                        neutral = want == m
                    else:
                        want = (dl * m + sd) ** 2 if c["scaled"] else dl
                        neutral = c["scaled"] and dl == 0
                    self.near("perturbed_parameter", new[k, j], want, 1e-6)
                    if neutral:
                        self.near("no_perturbation", T[k, j, i], 0.0, 1e-6)
                        if self.pf is not None:
                            self.near("probability_of_the_run_at_that_size", P[k, j], self.pf[i], 1e-6)
                        continue
                    w = density(c["what"], L, want)(z[:, j]) / f0
                    v = w * b
                    # heavy tailed ratios are not estimated well enough
                    if np.isnan(v).any() or v.max() > 40 or v.mean() < 0.02:
                        continue
                    s = v.std() * math.sqrt(1 / self.N + 1 / len(z)) + 1e-9
                    self.near("perturbed_probability", P[k, j], v.mean(), 7 * s + 2e-3 + 6 * v.max() / self.N)

    def asked(self):
        p, d, nd = self.p, self.d, len(self.delta)
        T = np.array(p.getIndices())
        n = len(np.atleast_1d(p.getDefectSizes()))
        if T.shape != (nd, d, n):
            return
        i, j, k = len(self.evs) % nd, (len(self.evs) + 1) % d, (len(self.evs) + 2) % n
        for a in {(0, 0, 0), (i, j, k), (nd - 1, d - 1, n - 1)}:
            for mask in range(8):
                kw = {}
                sl = [slice(None)] * 3
                for b, name in enumerate(("idelta", "marginal", "idefect")):
                    if mask >> b & 1:
                        kw[name] = a[b]
                        sl[b] = a[b]
                got, ref = np.array(p.getIndices(**kw), dtype=float), T[tuple(sl)]
                self.near("slice_of_the_table", np.r_[list(got.shape) + [0], got.ravel()] if got.size == ref.size else [-7.0], np.r_[list(ref.shape) + [0], ref.ravel()], 0)
        kept = [q for q in range(n) if call(p.getPLIObject, q)[0]]
        for q in range(n):
            ok, v = call(p.drawIndices, q, 0.9, None, False)
            self.evs.append({"op": "accepted" if q in kept else "refused", "what": "drawing", "ok": bool(ok)})
            if ok and q in kept:
                ls = [t for t in v[1].get_lines() if len(t.get_xdata()) == nd][:d]
                self.near("drawn_indices", [y for t in ls for y in t.get_ydata()], T[:, :, q].T, 1e-9)
                self.near("size_in_the_title", float(v[1].get_title().split("=")[1]), float(np.atleast_1d(p.getDefectSizes())[q]), 6e-4)
            plt.close("all")
            if len(kept) > 3 and q > 1:
                break
        if len(kept) >= 2 and nd >= 2:
            for j in range(d):
                ok, v = call(p.drawContourIndices, j)
                self.evs.append({"op": "accepted", "what": "contour", "ok": bool(ok)})
                if ok:
                    im = v[1].get_images()[0]
                    self.near("contour_values", np.ma.filled(im.get_array(), np.nan), T[:, j, kept], 1e-9)
                    s = np.atleast_1d(p.getDefectSizes())[kept]
                    self.near("contour_extent", im.get_extent(), [s.min(), s.max(), min(self.delta), max(self.delta)], 1e-9)
                plt.close("all")
        self.evs.append({"op": "refused", "what": "unknown_input", "ok": bool(call(p.drawContourIndices, d)[0])})
        plt.close("all")


def play(case):
    live = Live(case)
    for h in case["h"]:
        live.step(h)
    return live.evs


def refusals(case):
    evs = []
    x, y = S.surf_data(30, 3, 4, 1.0)
    Y = y.reshape(-1, 1)

    def make(kind, X):
        o = S.build(kind, X, Y, float(np.median(y)), sim=2, sampling=20)
        S.run(o, 1)
        return o
    for cls in (otpod.PLIMean, otpod.PLIVariance):
        for kind in ("binomial", "gauss", "qr"):
            evs.append({"op": "refused", "what": "other_study", "ok": call(cls, make(kind, x[:, :1]), [0.1])[0]})
        for kind in ("chaos", "kriging"):
            evs.append({"op": "refused", "what": "one_other_input", "ok": call(cls, make(kind, x[:, :2]), [0.1])[0]})
            evs.append({"op": "refused", "what": "study_without_run", "ok": call(cls, S.build(kind, x, Y, 20.0, sim=2, sampling=20), [0.1])[0]})
            p = call(cls, make(kind, x), [0.1])
            evs.append({"op": "accepted", "what": "study", "ok": p[0]})
            evs.append({"op": "refused", "what": "object_before_run", "ok": call(p[1].getPLIObject, 0)[0]})
            evs.append({"op": "refused", "what": "graph_before_run", "ok": call(p[1].drawIndices, 0)[0]})
            evs.append({"op": "accepted", "what": "default_sampling_size", "ok": p[1].getSamplingSize() == 10000})
    evs.append({"op": "refused", "what": "other_study", "ok": call(otpod.PLIMean, otpod.PODSummary(x, Y, 20.0), [0.1])[0]})
    plt.close("all")
    return evs


def run(ctx):
    pick = ctx.pick
    inv = dict(invariants=["KeptIsCurrent", "NeedsRun"], properties=["ForgottenBySizes", "OtherSettersKeep", "NothingDull"], timeout=900)
    few = "{{2, 3, 4, 6}, {1, 3}, {3, 4}, {1, 2, 3, 4, 5, 6}, {4}, {1, 6}, {2, 5}}"
    const = dict(Sizes="1..6", Chosen="SUBSET (1..6) \\ {{}}", Laws="1..3", Dull="{<<1, 1>>, <<1, 2>>, <<1, 3>>, <<6, 1>>, <<6, 2>>, <<6, 3>>, <<2, 1>>, <<5, 1>>}")
    short = ctx.cases("PliPod", constants=dict(const, MaxLen="2"), **inv)
    some = ctx.cases("PliPod", constants=dict(const, MaxLen="7", Chosen=few), simulate=pick(3000, 12000), depth=9, **inv)
    if ctx.thorough:
        ctx.cases("PliPod", constants=dict(const, MaxLen="3"), **inv)
    for s in (short, some):
        ctx.rng.shuffle(s)
    some = [c for c in some if sum(h["k"] == "run" for h in c["h"]) >= 2 and any(h["k"] == "ask" for h in c["h"])]
    plain = [[{"k": "run", "s": []}, {"k": "ask", "s": []}], [{"k": "law", "s": [3]}, {"k": "run", "s": []}, {"k": "ask", "s": []}], [{"k": "sizes", "s": [2, 3, 4, 5]}, {"k": "run", "s": []}, {"k": "ask", "s": []}]]
    cfg = [dict(kind=k, dim=d, what=w, scaled=sc, given=g, nd=nd, box=b) for k, d, w, sc, g, nd, b in (
        ("chaos", 3, "mean", True, False, 3, False), ("kriging", 3, "mean", True, True, 2, False), ("chaos", 3, "variance", True, True, 3, 0.5),
        ("chaos", 4, "mean", False, True, 3, 0.0), ("adaptive", 3, "mean", True, True, 3, False), ("chaos", 3, "variance", False, True, 2, False),
        ("kriging", 3, "variance", True, True, 3, 0.5), ("kriging", 4, "mean", True, False, 1, False), ("chaos", 3, "mean", False, False, 3, True))]
    cases = []
    hs = plain * 3 + [c["h"] for c in short[:pick(16, 100)]] + [c["h"] for c in some[:pick(18, 300)]]
    for i, h in enumerate(hs):
        for k in range(pick(1, 2)):
            cases.append(dict(cfg[(i + k) % len(cfg)], s=i, n=60, N=(1000, 2000)[i % 2], h=h))
    ctx.rng.shuffle(cases)
    traces = ctx.replay(play, cases, limit=pick(400, 600)) + ctx.replay(refusals, [0], limit=200)
    flat = [e for t in traces for e in t]
    ctx.extra["runs"] = sum(e["op"] == "run" for e in flat)
    ctx.extra["sizes_run"] = sum(len(e["sizes"]) for e in flat if e["op"] == "run")
    ctx.extra["sizes_left_out"] = sum(e["op"] == "run" and n == "all" for e in flat for n in e.get("nan", []))
    ctx.extra["probabilities_at_a_limit"] = sum(1 for e in flat if e["op"] == "near" and e["what"] == "number_of_detections" for g in e["got"] if g in ([0, 1000000], [0, 999000000]))
    ctx.extra["comparisons"] = sum(e["op"] == "near" for e in flat)
    ctx.sample(cases[0])
    ctx.validate("PliPodTrace", traces, broken=False)
    good = next(t for t in traces if any(e["op"] == "run" and "none" in e["nan"] and "all" in e["nan"] for e in t))

    def bad(f):
        t = copy.deepcopy(good)
        f(next(e for e in t if e["op"] == "run" and "none" in e["nan"] and "all" in e["nan"]))
        ctx.must_reject("PliPodTrace", [t], broken=False)

    bad(lambda e: e["nan"].__setitem__(e["nan"].index("none"), "all"))
    bad(lambda e: e["obj"].__setitem__(e["nan"].index("all"), True))
    bad(lambda e: e["sizes"].pop())
    bad(lambda e: e["shape"].__setitem__(2, 9))
    return ctx.finish()
