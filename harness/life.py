"""Lives of real objects for C09, C10 and C11: adapters, recording, generation."""
import copy
import json
import os
import tempfile

import numpy as np
import openturns as ot
import matplotlib.pyplot as plt

import otpod
import studies as S
from common import MachineryError, call, fp

ASK = False     # whether every question is asked after every run
GRID2 = [0.22, 0.4, 0.55, 0.68]


def same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        try:
            x, y = np.array(a, dtype=float), np.array(b, dtype=float)
            return x.shape == y.shape and bool(np.all(x == y))
        except Exception:
            return list(a) == list(b)
    if isinstance(a, (ot.Distribution, ot.JointDistribution)) or hasattr(a, "getMarginal"):
        try:
            return list(a.getParameter()) == list(b.getParameter()) and a.getDimension() == b.getDimension()
        except Exception:
            return False
    if isinstance(a, (bool, int, float, str)):
        return type(a) is type(b) and a == b
    return repr(a) == repr(b)


class P:
    """one parameter: how to set it, read it, admissible and inadmissible values"""

    def __init__(self, setter, getter, values, bads=(), stored=None):
        self.setter, self.getter, self.values, self.bads = setter, getter, values, list(bads)
        self.stored = stored or (lambda v: v)

    def set(self, o, v):
        if isinstance(self.setter, str):
            getattr(o, self.setter)(copy.deepcopy(v) if isinstance(v, list) else v)
        else:
            self.setter(o, v)

    def read(self, o):
        g = self.getter
        v = getattr(o, g)() if isinstance(g, str) else g(o)
        for i, w in enumerate(self.values):
            if same(v, self.stored(w)):
                return i + 1
        return 0


def quiet(f, *a):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def srt(v):
    return sorted(float(t) for t in np.hstack(np.array(v)))


NOTJOINT = [ot.Normal(2), "law", None, 3.0]
VERB = P("setVerbose", "getVerbose", [True], ["yes", 1, None, 0.0])


class Adapter:
    name = ""
    cls = (0.5, 0.9)
    levels = ((0.4, None), (0.4, 0.9))
    grid = GRID2

    def run(self, o, k):
        S.run(o, k)

    def answers(self, o):
        ok, f = call(o.getPODModel)
        if not ok:
            return ["none"]
        return S.answers(o, self.grid, self.cls, self.levels)

    def curve(self, o):
        """something handed out that has to keep its values: (callable giving its values)"""
        fs = [o.getPODModel(), o.getPODCLModel(0.9)]
        return lambda: [S.values(f, self.grid) for f in fs]

    def queries(self):
        def drawn(o):
            fig, ax = o.drawPOD(0.4, 0.9)
            return [[float(t) for t in l.get_xydata().ravel()] for l in ax.get_lines()]

        def saved(o):
            d = tempfile.mkdtemp()
            try:
                o.drawPOD(name=os.path.join(d, "a.png"))
                return sorted(os.listdir(d))
            finally:
                import shutil

                shutil.rmtree(d)

        def refused(o):
            return [call(o.computeDetectionSize, 1.5)[0], call(o.drawPOD, None, None, -1e9, 1e9)[0]]

        def cl(o):
            return [S.values(o.getPODCLModel(c), self.grid[:2]) for c in (0.05, 0.99)]

        return [drawn, saved, refused, cl]


class Linear(Adapter):
    def __init__(self, kind):
        self.name = kind
        self.kind = kind
        self.x, self.y = S.line_data(20, 3)
        self.params = {"sim": P("setSimulationSize", "getSimulationSize", [6, 11]), "verbose": VERB}
        self.grid = [0.2, 0.4, 0.6]

    def make(self):
        return S.build(self.kind, self.x.reshape(-1, 1), self.y.reshape(-1, 1), 25.0, sim=8)


class Qr(Adapter):
    name = "qr"
    levels = ((0.5, None), (0.5, 0.9))
    cls = (0.5, 0.9)

    def __init__(self):
        self.x, self.y = S.line_data(40, 5, noise=1.0)
        self.grid = [0.1, 0.3, 0.45, 0.6]
        self.params = {
            "sim": P("setSimulationSize", "getSimulationSize", [3, 5]),
            "quantile": P("setQuantile", "getQuantile", [[0.3, 0.6], [0.8, 0.2, 0.5]],
                          [[0.0, 0.5], [0.5, 1.0], [0.2, -0.1], [0.5, 1.2]], srt),
            "verbose": VERB}

    def make(self):
        return S.build("qr", self.x.reshape(-1, 1), self.y.reshape(-1, 1), 25.0, sim=4, quantiles=[0.2, 0.5, 0.7])

    def queries(self):
        def line(o):
            fig, ax = o.drawLinearModel(0.6)
            return [[float(t) for t in l.get_xydata().ravel()] for l in ax.get_lines()]

        return Adapter.queries(self) + [line, lambda o: [o.getR2(0.3)]]


DIST = [ot.JointDistribution([ot.Uniform(0.0, 1.0), ot.Uniform(-0.5, 0.5)]),
        ot.JointDistribution([ot.Uniform(0.1, 0.9), ot.Normal(0.2, 0.4)])]
SIZES = [[0.6, 0.15, 0.3, 0.75], [0.2, 0.5, 0.7]]
LOWHIGH = [[0.3, 5.0], [-3.0, 0.5]]


DISTR = ot.JointDistribution([ot.Uniform(0.05, 0.85), ot.Uniform(-1.0, 1.1)])


def chaos_result(n=35, s=9):
    x, y = S.surf_data(n, 2, s)
    o = S.build("chaos", x, y.reshape(-1, 1), 20.0, sim=2, sampling=10, degree=2, dist=DISTR)
    S.run(o, 1)
    return o.getPolynomialChaosResult()


class Chaos(Adapter):
    name = "chaos"

    def __init__(self):
        self.x, self.y = S.surf_data(30, 2, 4)
        en = ot.LinearEnumerateFunction(2)
        basis = ot.OrthogonalProductPolynomialFactory([ot.LegendreFactory()] * 2, en)
        self.results = [chaos_result()]
        self.params = {
            "sim": P("setSimulationSize", "getSimulationSize", [3, 7]),
            "sampling": P("setSamplingSize", "getSamplingSize", [40, 90]),
            "sizes": P("setDefectSizes", "getDefectSizes", SIZES, LOWHIGH, srt),
            "degree": P("setDegree", "getDegree", [1, 2]),
            "dist": P("setDistribution", lambda o: quiet(o.getDistribution), DIST[:1], NOTJOINT),
            "adaptive": P("setAdaptiveStrategy", lambda o: quiet(o.getAdaptiveStrategy),
                          [ot.FixedStrategy(basis, 4)], ["strategy", 3]),
            "projection": P("setProjectionStrategy", lambda o: quiet(o.getProjectionStrategy),
                            [ot.LeastSquaresStrategy()], ["strategy", 3]),
            "result": P("setPolynomialChaosResult", lambda o: quiet(o.getPolynomialChaosResult),
                        self.results, ["chaos", 3]),
            "verbose": VERB}

    def make(self):
        return S.build("chaos", self.x, self.y.reshape(-1, 1), 20.0, sim=4, sampling=60)

    def queries(self):
        def val(o):
            fig, ax = o.drawValidationGraph()
            return [[float(t) for t in l.get_xydata().ravel()] for l in ax.get_lines()]

        return Adapter.queries(self) + [val, lambda o: [list(o.getCoefficientDistribution().getMean())]]


COV = [ot.SquaredExponential([0.7, 1.5]), ot.MaternModel([1.1, 1.2], 2.5)]


def basis1():
    return ot.Basis([ot.SymbolicFunction(["a", "b"], ["1"])])


class Kriging(Adapter):
    name = "kriging"

    def __init__(self):
        self.x, self.y = S.surf_data(18, 2, 6)
        self.params = {
            "sim": P("setSimulationSize", "getSimulationSize", [3, 6]),
            "sampling": P("setSamplingSize", "getSamplingSize", [20, 35]),
            "sizes": P("setDefectSizes", "getDefectSizes", SIZES, LOWHIGH, srt),
            "start": P("setInitialStartSize", "getInitialStartSize", [2]),
            "dist": P("setDistribution", lambda o: quiet(o.getDistribution), DIST, NOTJOINT),
            "basis": P("setBasis", lambda o: quiet(o.getBasis), [basis1()], ["basis", 3]),
            "cov": P("setCovarianceModel", lambda o: quiet(o.getCovarianceModel), COV, ["cov", 3]),
            "result": P("setKrigingResult", lambda o: quiet(o.getKrigingResult), [self.result()], ["kriging", 3, None]),
            "verbose": VERB}

    def result(self):
        x, y = S.surf_data(18, 2, 6)
        o = S.build("kriging", x, y.reshape(-1, 1) + 2.0, 20.0, sim=2, sampling=5, sizes=[0.3, 0.5])
        o.setCovarianceModel(COV[1])
        S.run(o, 1)
        return o.getKrigingResult()

    def make(self):
        return S.build("kriging", self.x, self.y.reshape(-1, 1), 20.0, sim=4, sampling=25, sizes=[0.2, 0.35, 0.5, 0.7])

    def queries(self):
        def val(o):
            fig, ax = o.drawValidationGraph()
            return [[float(t) for t in l.get_xydata().ravel()] for l in ax.get_lines()]

        return Adapter.queries(self) + [val]


class Adaptive(Kriging):
    """no point added: parameters and answers only (each run starts from the covariance of the last one)"""
    name = "adaptive"

    def __init__(self):
        Kriging.__init__(self)
        for k in ("basis", "cov", "result", "start"):
            del self.params[k]
        self.params["cand"] = P("setCandidateSize", "getCandidateSize", [4, 9])
        self.params["graph"] = P(lambda o, v: o.setGraphActive(*v) if isinstance(v, tuple) else o.setGraphActive(v),
                                 "getGraphActive", [True], ["yes", 1, (True, None, None, 3)])

    def make(self):
        return S.build("adaptive", self.x, self.y.reshape(-1, 1), 20.0, sim=4, sampling=15, sizes=[0.2, 0.35, 0.5, 0.7],
                       model=ot.SymbolicFunction(["a", "b"], ["4+40*a+6*b"]), more=0)


class HitMiss(Adapter):
    name = "hitmiss"

    def __init__(self):
        self.x, y = S.surf_data(40, 2, 8)
        self.y = (y > 20.0).astype(float)
        rf, svc = [[6], [3], [2], [1]], [[2.0], ["rbf"], [2], [True]]

        def setc(o, v):
            if isinstance(v, list) and v and isinstance(v[0], str):
                o.setClassifierType(v[0])
                if v[1] is not None:
                    o.setClassifierParameters(v[1])
            else:
                o.setClassifierType(v)

        self.params = {
            "sampling": P("setSamplingSize", "getSamplingSize", [30, 45]),
            "cand": P("setCandidateSize", "getCandidateSize", [20]),
            "sizes": P("setDefectSizes", "getDefectSizes", SIZES, LOWHIGH, srt),
            "dist": P("setDistribution", lambda o: quiet(o.getDistribution), DIST, NOTJOINT),
            "pmin": P("setPMin", "getPMin", [0.0, 0.3], [-0.1, 1.1]),
            "pmax": P("setPMax", "getPMax", [1.0, 0.7], [-0.1, 1.1]),
            "classifier": P(setc, lambda o: [o.getClassifierType(), o.getClassifierParameters()],
                            [["rf", rf], ["svc", None], ["svc", svc]], ["forest", "SVC", None, 1],
                            lambda v: v if v[1] is not None else ["svc", [[1.0], ["poly"], [3], [True]]]),
            "graph": P(lambda o, v: o.setGraphActive(*v) if isinstance(v, tuple) else o.setGraphActive(v),
                       "getGraphActive", [True], ["yes", 1, (True, None, None, 3)]),
            "verbose": VERB}

    def make(self):
        return S.build("hitmiss", self.x, self.y.reshape(-1, 1), None, sampling=25,
                       model=ot.SymbolicFunction(["a", "b"], ["4+40*a+6*b > 20"]))


_POD3 = {}


def pod3():
    """a chaos study with two other inputs, run once per process"""
    if "pod" not in _POD3:
        x, y = S.surf_data(60, 3, 2)
        o = S.build("chaos", x, y.reshape(-1, 1), 22.0, sim=4, sampling=30, degree=2, sizes=[0.3, 0.4, 0.5])
        S.run(o, 1)
        _POD3["pod"] = o
    return _POD3["pod"]


DIST2 = [ot.JointDistribution([ot.Uniform(-0.9, 0.7), ot.Uniform(-0.6, 0.9)]),
         ot.JointDistribution([ot.Normal(0.1, 0.5), ot.Uniform(-0.5, 0.5)])]
BAD2 = [DIST[0].getMarginal(0), "law", ot.JointDistribution([ot.Uniform(0, 1)] * 3), None]


class Sobol(Adapter):
    name = "sobol"

    def __init__(self):
        pod3()
        self.params = {
            "sim": P("setSimulationSize", "getSimulationSize", [20, 35]),
            "method": P("setSensitivityMethod", "getSensitivityMethod", ["Martinez", "Jansen", "MauntzKucherenko"],
                        ["saltelli", "Sobol", "", None]),
            "sizes": P("setDefectSizes", "getDefectSizes", [[0.45, 0.35], [0.42, 0.3, 0.38, 0.5]], LOWHIGH, srt),
            "dist": P("setDistribution", "getDistribution", DIST2, BAD2)}

    def make(self):
        o = otpod.SobolIndices(pod3(), 40)
        o.setSimulationSize(25)
        return o

    def answers(self, o):
        ok, sa = call(o.getSensitivityResult)
        if not ok:
            return ["none"]
        return self.numbers(sa)

    @staticmethod
    def numbers(sa):
        out = []
        for i in range(12):
            ok, v = call(lambda: [list(sa.getFirstOrderIndices(i)), list(sa.getTotalOrderIndices(i))])
            if not ok:
                break
            out.append(v)
        return out + [list(sa.getAggregatedFirstOrderIndices())]

    def curve(self, o):
        sa = o.getSensitivityResult()
        return lambda: self.numbers(sa)

    def queries(self):
        def pod(o):
            p = pod3()
            return S.answers(p, [0.3, 0.45], (0.9,), ((0.5, 0.9),)) + list(p.getDefectSizes()) + [p.getSimulationSize()]

        def agg(o):
            fig, ax = o.drawAggregatedIndices()
            return [ax.get_title()]

        return [pod, agg]


class Pli(Adapter):
    def __init__(self, name):
        self.name = name
        pod3()
        self.params = {
            "sampling": P("setSamplingSize", "getSamplingSize", [80, 130]),
            "sizes": P("setDefectSizes", "getDefectSizes", [[0.45, 0.35], [0.42, 0.3, 0.38, 0.5]], LOWHIGH, srt),
            "dist": P("setDistribution", "getDistribution", DIST2, BAD2)}

    def make(self):
        if self.name == "plimean":
            o = otpod.PLIMean(pod3(), [-0.4, 0.3])
        else:
            o = otpod.PLIVariance(pod3(), [0.05, 0.2], covScaled=False)
        o.setSamplingSize(100)
        return o

    def run(self, o, k):
        S.run(o, k)
        o._verif_ran = True

    def answers(self, o):
        if not getattr(o, "_verif_ran", False):
            return ["none"]
        return np.array(o.getIndices()).tolist()

    def curve(self, o):
        a = call(o.getPLIObject, 0)
        if not a[0]:
            return lambda: []
        return lambda: np.array(a[1].getIndices()).tolist()

    def queries(self):
        def pod(o):
            p = pod3()
            return S.answers(p, [0.3, 0.45], (0.9,), ((0.5, 0.9),)) + list(p.getDefectSizes()) + [p.getSimulationSize()]

        def sl(o):
            return [np.array(o.getIndices(0)).tolist(), np.array(o.getIndices(None, 1)).tolist()]

        return [pod, sl]


METHODS = ["LinearBinomial", "LinearGauss", "LinearKernelSmoothing", "QuantileRegression", "PolynomialChaos", "Kriging"]


class Summary(Adapter):
    """parameters only (its runs are the subject of C15)"""
    name = "summary"

    def __init__(self):
        self.x, self.y = S.surf_data(20, 2, 5)

        def meth(m):
            # values: inactive (the default is active)
            return P(lambda o, v: o.setMethodActive(m, v) if not isinstance(v, tuple) else o.setMethodActive(*v),
                     lambda o: o.getMethodActive()[m], [False], [0, "no", None, ("Cubic", True), (m.lower(), False)])

        self.params = {m: meth(m) for m in METHODS[:3] + METHODS[5:]}
        self.params["sim"] = P("setSimulationSize", "getSimulationSize", [3, 7])
        self.params["sampling"] = P("setSamplingSize", "getSamplingSize", [30, 70])
        self.params["verbose"] = P("setVerbose", "getVerbose", [False], ["yes", 1, None])

    def make(self):
        return otpod.PODSummary(self.x, self.y.reshape(-1, 1), 20.0)

    def run(self, o, k):
        pass

    def answers(self, o):
        return ["none"]

    def curve(self, o):
        return lambda: []

    def queries(self):
        return [lambda o: [call(o.getLinearGaussPOD)[0]], lambda o: [call(o.getResults)[0]]]


def edged(base, kind):
    """the same study with thresholds; sizes at the bounds of the kept range, and just beyond them"""
    class Edged(base):
        name = base.name + "_edge"

        def __init__(self):
            base.__init__(self)
            y = np.asarray(self.y, float).ravel()
            self.N, self.T = (float(np.round(np.quantile(y, q), 3)) for q in (0.12, 0.85)) if kind != "hitmiss" else (None, None)
            k = np.ones(len(y), bool) if self.N is None else (y > self.N) & (y < self.T)
            lo, hi = float(self.x[k, 0].min()), float(self.x[k, 0].max())
            # censored points lie beyond on both sides, or nothing does
            self.params["sizes"] = P("setDefectSizes", "getDefectSizes", [[hi, 0.5 * (lo + hi), lo], [0.5 * (lo + hi), 0.6 * hi + 0.4 * lo]],
                                     [[0.5, hi + 2e-4], [lo - 2e-4, 0.5], [0.5, 0.5 * hi + 0.5 * float(self.x[:, 0].max()) + 1e-4]], srt)
            self.inside = [lo + t * (hi - lo) for t in (0.2, 0.45, 0.7, 0.9)]
            self.grid = self.inside

        def make(self):
            if kind == "hitmiss":
                return base.make(self)
            kw = {"chaos": dict(sampling=60), "kriging": dict(sampling=25, sizes=self.inside), "adaptive": dict(sampling=15, sizes=self.inside, model=ot.SymbolicFunction(["a", "b"], ["4+40*a+6*b"]), more=0)}[kind]
            return S.build(kind, self.x, self.y.reshape(-1, 1), 20.0, self.N, self.T, sim=4, **kw)
    return Edged


MAKERS = {"chaos_edge": edged(Chaos, "chaos"), "kriging_edge": edged(Kriging, "kriging"), "adaptive_edge": edged(Adaptive, "adaptive"),
          "hitmiss_edge": edged(HitMiss, "hitmiss"),
          "binomial": lambda: Linear("binomial"), "gauss": lambda: Linear("gauss"), "kernel": lambda: Linear("kernel"),
          "qr": Qr, "chaos": Chaos, "kriging": Kriging, "adaptive": Adaptive, "hitmiss": HitMiss, "sobol": Sobol,
          "plimean": lambda: Pli("plimean"), "plivariance": lambda: Pli("plivariance"), "summary": Summary}
_CACHE = {}


def adapter(name):
    if name not in _CACHE:
        _CACHE[name] = MAKERS[name]()
    return _CACHE[name]


def read(a, o):
    return {p: int(d.read(o)) for p, d in a.params.items()}


def live(case):
    """play one history on real objects"""
    name, nobj, hist = case
    a = adapter(name)
    objs = [a.make() for _ in range(nobj)]
    qs = a.queries()
    held = []

    def obs(d):
        d["read"] = [read(a, o) for o in objs]
        d["ans"] = [fp(a.answers(o)) for o in objs]
        d["held"] = all(fp(f()) == v for f, v in held)
        d["cls"] = name
        return d

    evs = [obs({"op": "new", "n": nobj, "o": 0})]
    for h in hist:
        o = objs[h["o"] - 1]
        e = {"op": h["k"], "o": h["o"], "p": h["p"], "v": h["v"], "ok": True, "again": True, "exc": "", "q": 0, "told": []}
        if h["k"] == "set":
            ok, x = call(a.params[h["p"]].set, o, a.params[h["p"]].values[h["v"] - 1])
            e["ok"], e["exc"] = ok, "" if ok else str(x)[:80]
        elif h["k"] == "bad":
            v = a.params[h["p"]].bads[h["v"] - 1]
            ok, x = call(a.params[h["p"]].set, o, v)
            e["ok"], e["exc"] = ok, str(v)[:60]
        elif h["k"] == "run":
            ok, x = call(a.run, o, h["v"])
            e["ok"], e["exc"] = ok, "" if ok else str(x)[:80]
            if ok:
                f = a.curve(o)
                held.append((f, fp(f())))
                if ASK:
                    for q in qs:
                        ok1, r1 = call(q, o)
                        e["told"].append(fp(r1) if ok1 else 1)
                    plt.close("all")
        else:
            ok1, r1 = call(qs[h["v"] - 1], o)
            ok2, r2 = call(qs[h["v"] - 1], o)
            plt.close("all")
            e["again"] = (fp(r1) == fp(r2)) if ok1 and ok2 else ok1 == ok2
            e["q"] = fp(r1) if ok1 else 1
            if not ok1:
                e["exc"] = str(r1)[:80]
        evs.append(obs(e))
        if not e["ok"] and h["k"] == "run":
            break
    return evs


def fresh(case):
    """answers of a new object in a configuration"""
    name, cfg, sd = case
    a = adapter(name)
    o = a.make()
    for p in a.params:
        if cfg[p]:
            a.params[p].set(o, a.params[p].values[cfg[p] - 1])
    ok, x = call(a.run, o, sd)
    return [{"cfg": cfg, "seed": sd, "fp": fp(a.answers(o)) if ok else -1, "ok": ok, "exc": "" if ok else str(x)[:200]}]


def spec_consts(name, nobj, seeds, shape, nq=None, only=None):
    a = adapter(name)
    ps = [p for p in a.params if only is None or p in only]
    q = lambda s: '"%s"' % s
    return {"Objs": "1..%d" % nobj, "Params": "{%s}" % ", ".join(map(q, ps)),
            "NVal": "[p \\in {%s} |-> CASE %s]" % (", ".join(map(q, ps)), " [] ".join("p = %s -> %d" % (q(p), len(a.params[p].values)) for p in ps)),
            "NBad": "[p \\in {%s} |-> CASE %s]" % (", ".join(map(q, ps)), " [] ".join("p = %s -> %d" % (q(p), len(a.params[p].bads)) for p in ps)),
            "NQuery": str(len(a.queries()) if nq is None else nq), "Seeds": "{%s}" % ", ".join(map(str, seeds)),
            "MaxLen": str(len(shape)), "Shape": "<<%s>>" % ", ".join("{%s}" % ", ".join(map(q, s)) for s in shape)}


INV = ["Stored", "OnlyCurrent"]
PROPS = ["RefusedChangesNothing", "QueryChangesNothing", "AnswersMoveOnlyWithRuns", "OthersUntouched"]


def histories(ctx, name, nobj, seeds, shape, simulate=None, nq=None, only=None):
    return [c["h"] for c in ctx.cases("Study", constants=spec_consts(name, nobj, seeds, shape, nq, only), invariants=INV,
                                      properties=() if simulate else PROPS, simulate=simulate,
                                      depth=len(shape) + 2 if simulate else None, timeout=ctx.pick(300, 3000), workers=4)]


def configurations(name, hist, nobj):
    a = adapter(name)
    cfg = [{p: 0 for p in a.params} for _ in range(nobj)]
    out = []
    for h in hist:
        if h["k"] == "set":
            cfg[h["o"] - 1][h["p"]] = h["v"]
        elif h["k"] == "run":
            out.append((name, dict(cfg[h["o"] - 1]), h["v"]))
    return out


def judge(ctx, traces, table, focus, reject=False):
    f = ctx.must_reject if reject else ctx.validate
    f("StudyTrace", traces, constants={"Focus": "{%s}" % ", ".join('"%s"' % f for f in focus)}, broken=False,
      files={"fresh.ndjson": "\n".join(json.dumps({k: t[k] for k in ("cfg", "seed", "fp")}) for t in table) + "\n"})


def explore(ctx, plans, focus, corrupt):
    """plans: class -> list of (number of objects, seeds, shape, simulated histories or None, keywords)"""
    from concurrent.futures import ThreadPoolExecutor

    jobs = []
    for name, ps in plans.items():
        adapter(name)
        for p in ps:
            jobs.append((name, p))
    with ThreadPoolExecutor(4) as ex:
        hs = list(ex.map(lambda j: histories(ctx, j[0], j[1][0], j[1][1], j[1][2], j[1][3], **j[1][4]), jobs))
    cases, need = [], {}
    per = {}
    for (name, p), h in zip(jobs, hs):
        cap = p[5] if len(p) > 5 else None
        if cap and len(h) > cap:
            ctx.rng.shuffle(h)
            h = h[:cap]
        per[name] = per.get(name, 0) + len(h)
        for x in h:
            cases.append((name, p[0], x))
            for c in configurations(name, x, p[0]):
                need[json.dumps(c, sort_keys=True)] = c
    need = list(need.values())
    ctx.extra["histories_per_class"] = per
    ctx.extra["configurations_run_on_new_objects"] = len(need)
    order = list(range(len(cases)))
    ctx.rng.shuffle(order)
    table = {}
    for (name, _, _), r in zip(need, ctx.replay(fresh, need, limit=200)):
        if r[0].get("op") == "crash" or not r[0]["ok"]:
            # a configuration in which a new object cannot run: reported, not compared
            r = [{"cfg": r[0].get("cfg", {}), "seed": r[0].get("seed", 0), "fp": -1, "exc": r[0]["exc"]}]
            ctx.violations.append({"clauses": ["new_object_runs"], "event": r[0], "what": "%s: %s" % (name, r[0])})
        table.setdefault(name, []).append(r[0])
    res = ctx.replay(live, [cases[i] for i in order], limit=300)
    by = {}
    for i, tr in zip(order, res):
        by.setdefault(cases[i][0], []).append(tr)
    groups = sorted(by)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda n: judge(ctx, by[n], table.get(n) or [{"cfg": {}, "seed": 0, "fp": 0}], focus), groups))
    for name in groups[:3]:
        ctx.sample({"class": name, "history": [[e["op"], e.get("p", ""), e.get("v", 0)] for e in by[name][0]]})
    n = corrupt[0]
    for tr in by[n]:
        bad = corrupt[1](copy.deepcopy(tr))
        if bad:
            judge(ctx, [bad], table.get(n) or [{"cfg": {}, "seed": 0, "fp": 0}], focus, reject=True)
            break
    else:
        raise MachineryError("no history to corrupt")
