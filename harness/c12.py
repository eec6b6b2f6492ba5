"""C12 the caller's data: copied, left alone, accepted in any form."""
import copy
import json

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot

import life
import otpod
import studies as S
from common import call, fp

FORMS = ["list", "tuple", "array", "view", "sample", "flat"]
DET = 20.0


# ------------------------------------------------- the caller's own objects
class Box:
    """one mutable object of the caller; value(v) is its content in version v"""

    def __init__(self, values, form, flat=False):
        self.values = [np.array(v, float) for v in values]
        self.form = form
        self.nd = self.values[0].ndim
        v = self.values[0]
        if form in ("list", "tuple"):
            self.o = self.nested(v, tuple if form == "tuple" else list)
        elif form == "flat" and flat:
            self.o = [float(t) for t in v.ravel()]
        elif form == "view":
            big = np.full((len(v) * 2, 3 * (v.shape[1] if self.nd > 1 else 1)), 7.5)
            self.o = big[::2, 1::3] if self.nd > 1 else big[::2, 1]
            self.o[...] = v
        elif form == "sample":
            self.o = ot.Sample(v) if self.nd > 1 else ot.Point([float(t) for t in v])
        else:
            self.o = v.copy()

    def nested(self, v, outer):
        # tuples of (mutable) lists
        return outer([float(t) for t in r] if self.nd > 1 else float(r) for r in v) if (outer is list or self.nd > 1) else [float(t) for t in v]

    def change(self, n):
        v = self.values[n]
        if isinstance(self.o, (list, tuple)):
            for i in range(len(v)):
                if self.nd == 1 or (self.form == "flat"):
                    self.o[i] = float(v.ravel()[i])
                else:
                    for j in range(v.shape[1]):
                        self.o[i][j] = float(v[i, j])
        elif isinstance(self.o, np.ndarray):
            self.o[...] = v
        elif self.nd > 1:
            for i in range(len(v)):
                for j in range(v.shape[1]):
                    self.o[i, j] = float(v[i, j])
        else:
            for i in range(len(v)):
                self.o[i] = float(v[i])

    def version(self):
        got = np.array(self.o, float)
        for i, v in enumerate(self.values):
            if got.size == v.size and np.array_equal(got.ravel(), v.ravel()):
                return i
        return -2


class Ragged(Box):
    """classifier parameters: a list of lists"""

    def __init__(self, values):
        self.values = values
        self.o = copy.deepcopy(values[0])

    def change(self, n):
        for i, v in enumerate(self.values[n]):
            self.o[i][:] = v

    def version(self):
        for i, v in enumerate(self.values):
            if self.o == v:
                return i
        return -2


class Law(Box):
    def __init__(self, values):
        self.values = values
        self.o = ot.JointDistribution(values[0])
        self.names = list(self.o.getDescription())

    def change(self, n):
        d = self.values[n]
        self.o.setDistributionCollection([d.getMarginal(i) for i in range(d.getDimension())])

    def version(self):
        if list(self.o.getDescription()) != self.names:
            return -2
        return version(self.values, self.o)


def version(values, d):
    for i, v in enumerate(values):
        if [d.getMarginal(k) for k in range(d.getDimension())] == [v.getMarginal(k) for k in range(v.getDimension())]:
            return i
    return -2


def near(values):
    def f(got):
        g = np.sort(np.hstack(np.array(got, float)).ravel())
        for i, v in enumerate(values):
            if g.shape == np.ravel(v).shape and np.array_equal(g, np.sort(np.ravel(v))):
                return i
        return -2
    return f


# ------------------------------------------------------------ the studies
LAWS2 = [ot.JointDistribution([ot.Uniform(0.1, 0.8), ot.Uniform(-1.0, 0.5)]), ot.JointDistribution([ot.Uniform(0.1, 0.8), ot.Uniform(-0.2, 1.0)]),
         ot.JointDistribution([ot.Uniform(0.1, 0.8), ot.Uniform(-1.0, 1.0)])]
LAWS1 = [ot.JointDistribution([d.getMarginal(1), ot.Uniform(-0.8, 0.7 + 0.1 * i)]) for i, d in enumerate(LAWS2)]
SIZES = [[0.6, 0.25, 0.35, 0.7], [0.3, 0.5, 0.65, 0.4], [0.33, 0.44, 0.28, 0.62]]
QS = [[0.7, 0.3, 0.5], [0.2, 0.6, 0.4], [0.45, 0.35, 0.55]]
RF = [[[6], [3], [2], [1]], [[9], [2], [2], [1]], [[4], [4], [2], [1]]]
DELTAS = [[-0.3, 0.2], [0.4, 0.1], [0.25, -0.15]]
VARS = [[0.2, 0.3], [0.32, 0.1], [0.25, 0.15]]   # below the largest variance of the uniform laws


def versions(x, y, step):
    """versions that can be mixed: other points and signals, close to the first ones"""
    xs, ys = [x], [y]
    for v in (1, 2):
        r = np.random.RandomState(v)
        xs.append(np.round(x + 0.02 * r.uniform(-1, 1, x.shape), 4))
        ys.append(np.round(y + step * r.randn(*y.shape), 4) if step else y[::-1] if v == 2 else np.where(np.arange(len(y)) % 7 == 0, 1 - y.T, y.T).T)
    return xs, ys


def line(kind):
    x, y = S.line_data(40 if kind == "qr" else 18, 3, noise=1.0)
    return versions(x.reshape(-1, 1), y.reshape(-1, 1), 1.0)


def plane(kind):
    x, y = S.surf_data(30 if kind in ("chaos", "hitmiss") else 16, 2, 4)
    x[0], x[1] = (0.1, -1.0), (0.8, 1.0)
    y[:2] = S.surf(x[:2])
    if kind == "hitmiss":
        y = (y > DET).astype(float)
    xs, ys = versions(x, y.reshape(-1, 1), 0.0 if kind == "hitmiss" else 1.0)
    for t in xs[1:]:
        t[:2] = x[:2]
    return xs, ys


GRID = [0.3, 0.45, 0.6]
ANALYSIS = ("getIntercept", "getSlope", "getStandardError", "getR2", "getKolmogorovPValue", "getDurbinWatsonPValue", "getBreuschPaganPValue",
            "getAndersonDarlingPValue", "getCramerVonMisesPValue", "getHarrisonMcCabePValue", "getZeroMeanPValue")
MODEL = {"adaptive": "4+40*a+6*b", "hitmiss": "4+40*a+6*b > 20"}


class Kind:
    def __init__(self, name):
        self.name = name
        self.uni = name in ("binomial", "gauss", "kernel", "qr", "analysis", "from_analysis", "box", "cens")
        self.values, self.atbuild, self.read = {}, [], {}
        if name in ("sobol", "plimean", "plivariance"):
            life.pod3()
            self.values = {"sizes": [sorted(v) for v in ([0.45, 0.35], [0.42, 0.3], [0.32, 0.48])], "dist": LAWS1}
            self.read = {"sizes": lambda o: near(self.values["sizes"])(o.getDefectSizes()), "dist": lambda o: version(LAWS1, o.getDistribution())}
            if name != "sobol":
                self.values["deltas"] = DELTAS if name == "plimean" else VARS
                self.atbuild = ["deltas"]
            return
        if name == "plimc":
            self.values = {"deltas": [[v, [v[1], v[0]]] for v in DELTAS], "law": LAWS1}
            self.atbuild = ["deltas", "law"]
            return
        xs, ys = line(name) if self.uni else plane(name)
        self.values = {"x": xs, "y": ys}
        self.atbuild = ["x", "y"]
        if name == "qr":
            self.values["quantile"] = QS
            self.read["quantile"] = lambda o: near(QS)(o.getQuantile())
        if name in ("chaos", "kriging", "adaptive", "hitmiss"):
            self.values.update(sizes=SIZES, dist=LAWS2)
            self.read.update(sizes=lambda o: near(SIZES)(o.getDefectSizes()), dist=lambda o: version(LAWS2, o.getDistribution()))
        if name == "hitmiss":
            self.values["params"] = RF
            self.read["params"] = lambda o: RF.index(o.getClassifierParameters()) if o.getClassifierParameters() in RF else -2

    def box(self, a, form):
        v = self.values[a]
        if a in ("dist", "law"):
            return Law(v)
        if a == "params":
            return Ragged(v)
        return Box(v, form, flat=self.uni or a == "y")

    def build(self, args):
        k = self.name
        if k in ("sobol", "plimean", "plivariance", "plimc"):
            if k == "sobol":
                o = otpod.SobolIndices(life.pod3(), 30)
                o.setSimulationSize(20)
                return o
            if k == "plimc":
                return self.mc(args)
            o = otpod.PLIMean(life.pod3(), args["deltas"]) if k == "plimean" else otpod.PLIVariance(life.pod3(), args["deltas"], covScaled=False)
            o.setSamplingSize(80)
            return o
        x, y = args["x"], args["y"]
        if k == "analysis":
            S.seed(5)
            return otpod.UnivariateLinearModelAnalysis(x, y, 12.0)
        if k == "from_analysis":
            a = otpod.UnivariateLinearModelAnalysis(x, y, resDistFact=ot.NormalFactory())
            o = otpod.UnivariateLinearModelPOD(analysis=a, detection=DET)
            o.setSimulationSize(6)
            o.setVerbose(False)
            return o
        if k == "summary":
            o = otpod.PODSummary(x, y, DET)
            o.setVerbose(False)
            o.setSimulationSize(4)
            o.setSamplingSize(20)
            for m in ("QuantileRegression", "Kriging", "LinearKernelSmoothing"):
                o.setMethodActive(m, False)
            return o
        if k == "box":
            return S.build("gauss", x, y, DET, box=True, sim=6)
        if k == "cens":
            return S.build("gauss", x, y, DET, 12.0, 38.0, sim=6)
        kw = {}
        if k in MODEL:
            kw = dict(model=ot.SymbolicFunction(["a", "b"], [MODEL[k]]), more=1 if k == "adaptive" else 3)
        return S.build(k, x, y, None if k == "hitmiss" else DET, sim=5, sampling=30, cand=None if k == "hitmiss" else 3, **kw)

    def mc(self, args):
        law = args["law"]
        g = ot.MemoizeFunction(ot.SymbolicFunction(["a", "b"], ["a+b"]))
        d = ot.JointDistribution([ot.Uniform(-1, 1)] * 2)
        ev = ot.ThresholdEvent(ot.CompositeRandomVector(g, ot.RandomVector(d)), ot.Greater(), 0.3)
        S.seed(3)
        algo = ot.ProbabilitySimulationAlgorithm(ev)
        algo.setMaximumOuterSampling(200)
        algo.setBlockSize(1)
        algo.setMaximumCoefficientOfVariation(0.0)
        algo.run()
        return otpod.PLIMeanBase(algo.getResult(), law, args["deltas"]) if hasattr(otpod, "PLIMeanBase") else None

    def give(self, o, a, v):
        {"quantile": "setQuantile", "sizes": "setDefectSizes", "dist": "setDistribution", "params": "setClassifierParameters"}
        getattr(o, {"quantile": "setQuantile", "sizes": "setDefectSizes", "dist": "setDistribution", "params": "setClassifierParameters"}[a])(v)

    def run(self, o):
        if self.name == "analysis":
            return
        S.run(o, 5)

    def answers(self, o):
        k = self.name
        if k == "analysis":
            return [list(getattr(o, m)()) for m in ANALYSIS if hasattr(o, m)] + [np.array(r).tolist() for r in o.getResiduals()] + [
                np.array(o.getInputSample()).tolist(), np.array(o.getOutputSample()).tolist()]
        if k == "summary":
            out = []
            for m in ("getLinearGaussPOD", "getLinearBinomialPOD", "getPolynomialChaosPOD"):
                out += S.answers(getattr(o, m)(), GRID, (0.9,), ((0.5, 0.9),))
            return out
        if k == "sobol":
            return life.Sobol.numbers(o.getSensitivityResult())
        if k in ("plimean", "plivariance"):
            return np.array(o.getIndices()).tolist()
        out = S.answers(o, GRID, (0.5, 0.9), ((0.4, None), (0.4, 0.9)))
        if k in ("adaptive", "hitmiss"):
            out += [np.array(o.getInputDOE()).tolist(), np.array(o.getOutputDOE()).tolist()]
        return out

    def ask(self, o):
        if hasattr(o, "drawPOD"):
            call(o.drawPOD, 0.4, 0.9)
        for m in ("drawValidationGraph", "drawLinearModel", "drawResiduals", "printResults", "getResults"):
            if hasattr(o, m):
                call(getattr(o, m))
        if hasattr(o, "getIndices"):
            call(o.getIndices, 0)
        plt.close("all")


KINDS = ["binomial", "gauss", "kernel", "box", "cens", "qr", "analysis", "from_analysis", "summary", "chaos", "kriging", "adaptive", "hitmiss", "sobol", "plimean", "plivariance"]
_K = {}


def kind(name):
    if name not in _K:
        _K[name] = Kind(name)
    return _K[name]


def live(case):
    name, form, hist = case
    k = kind(name)
    mine = {a: k.box(a, form) for a in k.values}
    ver = {a: 0 for a in mine}
    st = {"o": None, "ran": False}
    handed = set()

    def obs(op, a="", ok=True, exc=""):
        o = st["o"]
        e = {"op": op, "a": a, "ok": ok, "exc": exc, "cls": name, "form": form, "given": k.atbuild, "mine": {b: m.version() for b, m in mine.items()},
             "read": {b: (k.read[b](o) if o is not None and b in k.read and b in handed else -1) for b in mine}, "ans": fp(k.answers(o)) if st["ran"] else 0}
        return e

    evs = [obs("start")]
    for h in hist:
        op, a = h["k"], h["a"]
        ok, x = True, ""
        if op == "build":
            ok, x = call(k.build, {b: mine[b].o for b in k.atbuild})
            st["o"] = x if ok else None
        elif op == "give":
            ok, x = call(k.give, st["o"], a, mine[a].o)
            handed.add(a)
        elif op == "change":
            ver[a] += 1
            mine[a].change(ver[a])
        elif op == "run":
            ok, x = call(k.run, st["o"])
            st["ran"] = st["ran"] or ok
        else:
            k.ask(st["o"])
        evs.append(obs(op, a, ok, "" if ok else str(x)[:100]))
        if not ok:
            break
    return evs


def fresh(case):
    name, has = case
    k = kind(name)
    o = k.build({a: k.box2(a, has[a]) for a in k.atbuild})
    for a in has:
        if a not in k.atbuild and has[a] >= 0:
            k.give(o, a, k.box2(a, has[a]))
    ok, x = call(k.run, o)
    return [{"cls": name, "has": has, "fp": fp(k.answers(o)) if ok else -1, "exc": "" if ok else str(x)[:200]}]


def box2(self, a, v):
    """a pristine object in version v, in its plainest form"""
    if a in ("dist", "law"):
        return ot.JointDistribution(self.values[a][v])
    if a == "params":
        return copy.deepcopy(self.values[a][v])
    return np.array(self.values[a][v], float)


Kind.box2 = box2


def runs(k, hist):
    mine = {a: 0 for a in k.values}
    has = {a: -1 for a in k.values}
    out = []
    for h in hist:
        if h["k"] == "change":
            mine[h["a"]] += 1
        elif h["k"] == "build":
            has.update({a: mine[a] for a in k.atbuild})
        elif h["k"] == "give":
            has[h["a"]] = mine[h["a"]]
        elif h["k"] == "run":
            out.append(dict(has))
    return out


# -------------------------------------------------------- inconsistent data
def do_shapes(name):
    k = kind(name)
    x, y = np.array(k.values["x"][0]), np.array(k.values["y"][0])
    n = len(x)
    bad = {"two_points": (x[:2], y[:2]), "one_point": (x[:1], y[:1]), "less_signals": (x, y[:-1]), "more_signals": (x[:-1], y), "one_signal": (x, y[:1]),
           "two_signals": (x, np.c_[y, y]), "row_signals": (x, y.T)}
    if k.uni:
        bad["two_inputs"] = (np.c_[x, x], y)
        bad["row_inputs"] = (x.T, y)
    elif name in ("kriging", "adaptive"):
        bad["one_input"] = (x[:, :1], y)
    evs = []
    for form in ("list", "array", "sample"):
        for w, (a, b) in sorted(bad.items()):
            if name == "summary":
                continue
            va, vb = Box([a], form).o, Box([b], form).o
            ok, _ = call(k.build, {"x": va, "y": vb})
            evs.append({"op": "shape", "what": w, "cls": name, "refused": not ok, "form": form})
    # three observations are enough to build
    if name in ("binomial", "gauss", "kernel", "qr", "kriging"):
        ok, _ = call(k.build, {"x": x[:3], "y": y[:3]})
        evs.append({"op": "shape", "what": "three_points_accepted", "cls": name, "refused": ok, "form": "array"})
    return evs


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor

    pick = ctx.pick
    q = lambda s: "{%s}" % ", ".join('"%s"' % t for t in s)
    cheap = ("binomial", "gauss", "kernel", "box", "cens", "qr", "analysis", "from_analysis")

    def plan(name):
        k = kind(name)
        n = 6 if len(k.values) > 2 else 5
        return ctx.cases("Caller", constants={"Args": q(k.values), "AtBuild": q(k.atbuild), "Forms": q(FORMS), "NVer": "1", "MaxLen": str(n),
                                              "MaxRuns": "1" if name in ("adaptive", "hitmiss", "summary", "analysis") else "2"},
                         invariants=["ChangedByCallerOnly", "KeptAsGiven", "AnswersAreOfLastRun"],
                         properties=["ChangingMyDataChangesNothing", "UsingTheStudyLeavesMyData"], workers=2, timeout=pick(300, 2000))

    for n in KINDS:
        kind(n)
    with ThreadPoolExecutor(4) as ex:
        plans = list(ex.map(plan, KINDS))
    cases, need = [], {}
    for name, cs in zip(KINDS, plans):
        k = kind(name)
        # keep the histories in which something of the caller's changes while the study is alive, a few of the others
        def weight(c):
            ks = [h["k"] for h in c["h"]]
            return ks.index("build") < len(ks) - 1 - ks[::-1].index("change") if "change" in ks else False
        live_, rest = [c for c in cs if weight(c)], [c for c in cs if not weight(c)]
        ctx.rng.shuffle(live_)
        ctx.rng.shuffle(rest)
        m = {"summary": pick(12, 60), "adaptive": pick(36, 240), "hitmiss": pick(40, 240), "kriging": pick(50, 300), "chaos": pick(60, 400), "sobol": pick(40, 200),
             "plimean": pick(36, 200), "plivariance": pick(24, 150), "qr": pick(60, 300)}.get(name, pick(90, 600))
        use = spread(live_, m) + spread(rest, max(6, m // 5))
        ctx.extra.setdefault("histories_per_class", {})[name] = len(use)
        for c in use:
            cases.append((name, c["form"], c["h"]))
            for h in runs(k, c["h"]):
                need[json.dumps([name, h], sort_keys=True)] = (name, h)
    table = []
    for (name, h), r in zip(need.values(), ctx.replay(fresh, list(need.values()), limit=300)):
        if r[0].get("op") == "crash" or r[0]["fp"] == -1:
            ctx.violations.append({"clauses": ["plain_study_runs"], "event": r[0], "what": "%s %s: %s" % (name, h, r[0])})
            continue
        table.append({t: r[0][t] for t in ("cls", "has", "fp")})
    known = {json.dumps([t["cls"], t["has"]], sort_keys=True) for t in table}
    order = [c for c in cases if all(json.dumps([c[0], h], sort_keys=True) in known for h in runs(kind(c[0]), c[2]))]
    ctx.rng.shuffle(order)
    res = ctx.replay(live, order, limit=300)
    files = {"fresh.ndjson": "\n".join(json.dumps(t) for t in table) + "\n"}
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: ctx.validate("CallerTrace", res[i::4], files=files, broken=False), range(4)))
    ctx.validate("CallerTrace", ctx.replay(do_shapes, [k for k in KINDS if "x" in kind(k).values and k not in ("from_analysis",)]), files=files, broken=False)
    ctx.extra["configurations_run_on_pristine_data"] = len(table)
    ctx.sample({"class": order[0][0], "form": order[0][1], "history": order[0][2]})
    good = next(t for t in res if t[-1]["op"] != "crash" and any(e["op"] == "change" for e in t))
    for what in ("mine", "ans"):
        bad = copy.deepcopy(good)
        e = [e for e in bad if e["op"] == ("change" if what == "mine" else "run")][0]
        if what == "mine":
            e["mine"] = {a: v + 1 for a, v in e["mine"].items()}
        else:
            e["ans"] += 1
        ctx.must_reject("CallerTrace", [bad], files=files, broken=False)
    ctx.assumptions += ["answers compared to 9 significant digits; the same random state before every run"]
    return ctx.finish()


def spread(cs, m):
    """every form gets its share"""
    by = {}
    for c in cs:
        by.setdefault(c["form"], []).append(c)
    out = []
    while by and len(out) < m:
        for f in sorted(by):
            if by[f]:
                out.append(by[f].pop())
            else:
                del by[f]
                break
    return out[:m]
