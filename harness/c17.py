"""C17 POD studies built from a linear analysis."""
import copy
import math

import numpy as np
import openturns as ot
from scipy import stats

import linref as R
import otpod
import studies as S
from common import call, fx, fxs

EXTRAS = {"inputSample": [[0.1], [0.2], [0.3]], "outputSample": [[1.0], [2.0], [4.0]], "noiseThres": 0.0, "saturationThres": 0, "resDistFact": "law", "boxCox": True}
LAWS = [None, ot.NormalFactory, ot.KernelSmoothing, ot.LogisticFactory, ot.LaplaceFactory, ot.UniformFactory,
        ot.LogNormalFactory, ot.GumbelFactory]
ACC = ("getIntercept", "getSlope", "getStandardError", "getR2", "getKolmogorovPValue", "getAndersonDarlingPValue", "getCramerVonMisesPValue", "getZeroMeanPValue",
       "getBreuschPaganPValue", "getHarrisonMcCabePValue", "getDurbinWatsonPValue")


def everything(a):
    out = [float(v) / 1e3 for g in ACC for v in getattr(a, g)()]
    out += [float(v) / 1e3 for v in np.array(a.getResiduals()).ravel()]
    out += [float("nan") if v is None else float(v) / 1e3 for v in (a.getBoxCoxParameter(), a.getNoiseThreshold(), a.getSaturationThreshold())]
    out += [float(v) / 1e3 for v in np.array(a.getInputSample()).ravel()] + [float(v) / 1e3 for v in np.array(a.getOutputSample()).ravel()]
    return fxs(out)


def setting(case):
    r = np.random.RandomState(400 + case["s"])
    n = case["n"]
    x = np.round(r.uniform(0.1, 3.0, n), 3)
    y = np.round(9.0 + (4.0, 2.5, -2.5)[case["s"] % 3] * x + 0.6 * r.randn(n), 3)
    N = float(np.round(np.quantile(y, 0.15), 3)) if case["cens"] in ("noise", "both") else None
    T = float(np.round(np.quantile(y, 0.85), 3)) if case["cens"] in ("sat", "both") else None
    return x, y, N, T, [float(np.round(np.quantile(y, q), 3)) for q in (0.4, 0.55, 0.7)]


def play(case):
    x, y, N, T, dets = setting(case)
    law, box, s = LAWS[case["law"]], case["box"], case["s"]
    cont = [lambda v: v.reshape(-1, 1), lambda v: ot.Sample(v.reshape(-1, 1)), lambda v: v.reshape(-1, 1).tolist()][s % 3]
    S.seed(s)
    an = otpod.UnivariateLinearModelAnalysis(cont(x), cont(y), N, T, None if law is None else law(), box)
    who = str({k: v for k, v in case.items() if k != "h"})
    evs = [{"op": "start", "an": everything(an), "case": who}]
    pods = {}
    lam = an.getBoxCoxParameter()
    wlam = fx(float("nan") if lam is None else lam)
    grid = np.linspace(x.min(), x.max(), 9)

    def lam_of(o):
        v = o.getBoxCoxParameter()
        return fx(float("nan") if v is None else v)

    for h in case["h"]:
        e = {"op": h["k"], "case": who}
        if h["k"] == "build":
            if s % 2:
                ok, o = call(lambda: otpod.UnivariateLinearModelPOD(analysis=an, detection=dets[h["d"]]))
            else:
                ok, o = call(lambda: otpod.UnivariateLinearModelPOD(None, None, dets[h["d"]], analysis=an))
            e.update(ok=ok, d=h["d"], lam=wlam, wlam=wlam)
            if ok:
                e["lam"] = lam_of(o)
                o.setVerbose(False)
                o.setSimulationSize(25)
                pods[h["i"]] = o
        elif h["k"] == "run":
            o, det = pods[h["i"]], dets[h["d"]]
            ok, _ = call(S.run, o, s + 1)
            d = otpod.UnivariateLinearModelPOD(cont(x), cont(y), det, N, T, ot.NormalFactory() if law is None else law(), box)
            d.setVerbose(False)
            d.setSimulationSize(25)
            S.run(d, s + 1)
            cl = lambda t: sum((S.values(t.getPODCLModel(c), grid) for c in (0.5, 0.95)), [])
            e.update(ok=ok, p=h["i"], d=h["d"], wlam=wlam)
            if ok:
                e.update(lam=lam_of(o), curve=fxs(S.values(o.getPODModel(), grid)), dcurve=fxs(S.values(d.getPODModel(), grid)), cl=fxs(cl(o)), dcl=fxs(cl(d)),
                         sizes=fxs(S.sizes_of(o)), dsizes=fxs(S.sizes_of(d)), r2=fx(o.getR2()), wr2=fx(list(an.getR2())[-1]))
                # from what the analysis reports
                b0, b1, sd = list(an.getIntercept())[-1], list(an.getSlope())[-1], list(an.getStandardError())[-1]
                xu, yu, _, _ = R.split(x, y, N, T)
                D = det
                if box is not False:
                    shift = 0.0 if yu.min() >= 0 else -yu.min() + 100
                    D = float(R.boxcox(det + shift, lam))
                if law is None or law is ot.NormalFactory:
                    ref = [float(stats.norm.sf((D - b0 - b1 * a) / (sd * math.sqrt(1 + R.lever(xu, a))))) for a in grid]
                else:
                    res = an.getResidualsDistribution()[-1]
                    ref = [res.computeComplementaryCDF(D - b0 - b1 * a) for a in grid]
                e["lcurve"] = fxs(ref)
            else:
                z = []
                e.update(lam=wlam, curve=z, dcurve=z, cl=z, dcl=z, sizes=z, dsizes=z, r2=fx(0), wr2=fx(0), lcurve=z)
        e["an"] = everything(an)
        evs.append(e)
    return evs


def ctor(cases):
    evs = []
    S.seed(3)
    x, y, N, T, dets = setting({"s": 3, "n": 20, "cens": ""})
    an = otpod.UnivariateLinearModelAnalysis(x.reshape(-1, 1), y.reshape(-1, 1))
    for c in cases:
        kw = {k: EXTRAS[k] for k in c["extras"]}
        if "resDistFact" in kw:
            kw["resDistFact"] = ot.NormalFactory()
        if "boxCox" in kw and len(c["extras"]) % 2 == 0:
            kw["boxCox"] = 0.5
        if c["det"]:
            kw["detection"] = dets[1]
        ok, _ = call(lambda: otpod.UnivariateLinearModelPOD(analysis=an, **kw))
        evs.append({"op": "ctor", "extras": c["extras"], "det": c["det"], "ok": ok})
    return evs


def run(ctx):
    cs = ctx.cases("FromAnalysis", constants={"Extras": "{%s}" % ", ".join('"%s"' % e for e in EXTRAS), "Detections": "{0, 1, 2}", "MaxLen": ctx.pick("5", "6")},
                   invariants=["SameLine"], properties=["AnalysisStays", "ThresholdStays"], timeout=900)
    hist = [c["h"] for c in cs if c["kind"] == "history"]
    ct = [c for c in cs if c["kind"] == "ctor"]
    ctx.rng.shuffle(hist)
    ctx.extra["constructor_calls"] = len(ct)
    traces = ctx.replay(ctor, [ct], limit=60)
    cases = []
    for cens in ("", "noise", "sat", "both"):
        for law in range(len(LAWS)):
            for box in (False, True, 0.5, -1.0, 0.0):
                for k in range(ctx.pick(2, 20)):
                    i = len(cases)
                    cases.append({"cens": cens, "law": law, "box": box, "s": i + k, "n": 90 if law > 1 and cens and box is True else (25, 40)[k % 2], "h": hist[i % len(hist)]})
    ctx.rng.shuffle(cases)
    ctx.extra["histories"] = len(cases)
    traces += ctx.replay(play, cases, limit=200)
    ctx.sample(cases[0])
    ctx.validate("FromAnalysisTrace", traces, broken=False)
    good = next(t for t in traces if any(e["op"] == "run" for e in t))

    def bad(op, f):
        t = copy.deepcopy(good)
        f(next(e for e in t if e["op"] == op))
        ctx.must_reject("FromAnalysisTrace", [t], broken=False)

    bad("run", lambda e: e["curve"].__setitem__(4, fx(0.123)))
    bad("run", lambda e: e["an"].__setitem__(0, fx(77.0)))
    bad("run", lambda e: e.__setitem__("d", (e["d"] + 1) % 3))
    return ctx.finish()
