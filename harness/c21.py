"""C21 graphs show the curves and numbers of the study."""
import copy
import math
import os
import re
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
from statsmodels.regression.quantile_regression import QuantReg

import c06
import c08
import linref as R
import otpod
import studies as S
from common import call, fx, fxs

BOUNDED = ("qr", "chaos", "kriging", "adaptive", "hitmiss")
TITLE = {"binomial": "Binomial", "gauss": "Gauss", "kernel": "KernelSmoothing", "weibull": "WeibullMin", "qr": "Quantile regression",
         "chaos": "Polynomial chaos", "kriging": "Kriging", "adaptive": "Kriging", "hitmiss": "Classifier", "logistic": "LogisticFactory"}
ENTRY = [(r"POD", "pod"), (r"POD at confidence level (?P<c>[\d.]+)", "cl"), (r"Probability level (?P<p>[\d.]+)", "level"),
         (r"a(?P<P>\d+) : (?P<v>-?[\d.]+(?:e-?\d+)?)", "size"), (r"a(?P<P>\d+)/(?P<C>\d+) : (?P<v>-?[\d.]+(?:e-?\d+)?)", "size_cl")]


def entry(t):
    for r, k in ENTRY:
        m = re.fullmatch(r, t)
        if m:
            g = m.groupdict()
            pc = lambda s: int(round(float(s) * 100, 6))
            return {"k": k, "p": pc(g["p"]) if g.get("p") else int(g.get("P") or 0), "c": pc(g["c"]) if g.get("c") else int(g.get("C") or 0), "v": fx(float(g.get("v") or 0))}
    return {"k": "?" + t, "p": 0, "c": 0, "v": fx(0.0)}


def segments(ax):
    """straight segments with their label"""
    out = []
    for c in ax.collections:
        if hasattr(c, "get_segments"):
            out += [(c.get_label(), np.array(s)) for s in c.get_segments()]
    for l in ax.get_lines():
        out.append((l.get_label(), np.c_[np.ravel(l.get_xdata()), np.ravel(l.get_ydata())]))
    return out


def directory(d):
    return sorted(os.listdir(d))


# ------------------------------------------------------------------ POD graphs
def draw(o, kind, opt, lo, hi, d, seen):
    at = lambda t: lo + (hi - lo) * t / 10.0
    kw, p, c = {}, opt["level"] / 100.0 or None, opt["cl"] / 100.0 or None
    if opt["level"]:
        kw["probabilityLevel"] = p
    if opt["cl"]:
        kw["confidenceLevel"] = c
    if opt["lo"] != -99:
        kw["defectMin"] = at(opt["lo"])
    if opt["hi"] != -99:
        kw["defectMax"] = at(opt["hi"])
    if opt["nb"] != 100:
        kw["nbPt"] = opt["nb"]
    if opt["name"]:
        kw["name"] = os.path.join(d, "f%d.%s" % (opt["name"], ("", "png", "svg")[opt["name"]]))
    rok, v = call(o.computeDetectionSize, *([p, c] if c else [p])) if p else (True, [])
    here = os.getcwd()
    os.chdir(d)
    try:
        ok, g = call(o.drawPOD, **kw)
    finally:
        os.chdir(here)
    a, b = at(0 if opt["lo"] == -99 else opt["lo"]), at(10 if opt["hi"] == -99 else opt["hi"])
    e = {"op": "draw", "o": opt, "bounded": kind in BOUNDED, "reached": bool(rok), "ok": bool(ok), "title": True, "x": fxs(np.linspace(a, b, opt["nb"])),
         "files": sorted({int(f[1]) if re.fullmatch(r"f\d\..*", f) and os.path.getsize(os.path.join(d, f)) > 1000 else 9 for f in directory(d)}),
         "els": [], "legend": [], "sizes": fxs([float(t) for t in v] if p and rok else []), "case": seen}
    if not ok:
        e["exc"] = repr(g)[:150]
        plt.close("all")
        return e
    fig, ax = g
    e["title"] = TITLE[kind] in ax.get_title()
    for label, s in segments(ax):
        k = entry(label)["k"]
        if k in ("pod", "cl"):
            f = o.getPODModel() if k == "pod" else o.getPODCLModel(c or 0.5)
            end = lambda t: min(max(float(t), a), b) if abs(t - a) < 1e-9 or abs(t - b) < 1e-9 else float(t)
            e[k] = {"x": fxs(s[:, 0]), "y": fxs(s[:, 1]), "ref": fxs(S.values(f, [end(t) for t in s[:, 0]]))}
        elif k == "level":
            e[k] = fxs([s[:, 0].min(), s[:, 0].max(), s[0, 1]]) if abs(s[0, 1] - s[-1, 1]) < 1e-12 else fxs([0, 0, -1])
        elif k in ("size", "size_cl"):
            e[k] = fxs([s[0, 0], s[:, 1].min(), s[:, 1].max()]) if abs(s[0, 0] - s[-1, 0]) < 1e-12 else fxs([-1e6, 0, 0])
        e["els"].append(k)
    leg = ax.get_legend()
    e["legend"] = [entry(t.get_text()) for t in leg.get_texts()] if leg else []
    plt.close("all")
    return e


def play(case):
    kind = case["study"][0]
    try:
        o, lo, hi, _, kw = c08.study(tuple(case["study"]))
    except Exception:
        if kind == "qr" or case["study"][2] in ("box", "cens"):
            return []
        raise
    evs = []
    for h in case["h"]:
        d = tempfile.mkdtemp(prefix="verif_draw_")
        try:
            evs.append({"op": "start"})
            for opt in h:
                evs.append(draw(o, kind, opt, lo, hi, d, str(case["study"])))
        finally:
            shutil.rmtree(d)
    return evs


# ---------------------------------------------------------------- other graphs
class Page:
    def __init__(self, who):
        self.evs, self.who = [], who

    def near(self, what, got, ref, tol=1e-9):
        got, ref = np.ravel(np.array(got, float)), np.ravel(np.array(ref, float))
        q = max(1.0, float(np.abs(ref[np.isfinite(ref)]).max()) / 1e6) if len(ref) and np.isfinite(ref).any() else 1.0
        cut = lambda v: [float(np.clip(t / q, -1e8, 1e8)) for t in v]
        self.evs.append({"op": "near", "what": what, "got": fxs(cut(got)), "ref": fxs(cut(ref)), "tol": [int(min(t / q, 0.9) * 1e9) + 2 for t in np.broadcast_to(np.ravel(tol), (len(ref),))], "case": self.who})

    def take(self, f, *a, what="graph", named=False, **k):
        """draw (in a scratch directory), keep what is written"""
        d = tempfile.mkdtemp(prefix="verif_draw_")
        here = os.getcwd()
        os.chdir(d)
        try:
            if named:
                k["name"] = os.path.join(d, "asked.png")
            ok, v = call(f, *a, **k)
            new = ["asked" if t == "asked.png" and os.path.getsize(t) > 1000 else t for t in directory(d)]
        finally:
            os.chdir(here)
            shutil.rmtree(d)
        self.evs.append({"op": "accepted", "what": what, "ok": bool(ok), "case": self.who, "exc": "" if ok else repr(v)[:200]})
        self.evs.append({"op": "saved", "named": named, "new": new, "ok": bool(ok), "what": what, "case": self.who})
        return v if ok else (None, None)

    def refused(self, what, f, *a, **k):
        self.evs.append({"op": "refused", "what": what, "ok": bool(call(f, *a, **k)[0]), "case": self.who})
        plt.close("all")

    def pairs(self, what, got, ref, tol):
        """sets of points"""
        got, ref = np.array(got, float).reshape(-1, 2), np.array(ref, float).reshape(-1, 2)
        if len(got) == len(ref):
            # rounding must not change the order
            key = lambda a: np.lexsort((np.round(a[:, 1], 6), np.round(a[:, 0], 6)))
            got, ref = got[key(got)], ref[key(ref)]
        self.near(what, got, ref, tol)

    def visible(self, ax, pts):
        pts = np.array(pts, float)
        for k, lim in ((0, ax.get_xlim()), (1, ax.get_ylim())):
            self.evs.append({"op": "inside", "what": "points_within_the_axes", "got": fxs(pts[:, k]), "lo": fx(min(lim)), "hi": fx(max(lim)), "case": self.who})

    def points(self, ax):
        return [np.c_[np.ravel(l.get_xdata()), np.ravel(l.get_ydata())] for l in ax.get_lines() if l.get_marker() not in ("None", None, "", " ") and l.get_linestyle() in ("None", "none", "", " ")]

    def joined(self, ax):
        return [np.c_[np.ravel(l.get_xdata()), np.ravel(l.get_ydata())] for l in ax.get_lines() if l.get_linestyle() not in ("None", "none", "", " ")]

    def likelihood(self, o, y, box):
        """Box-Cox likelihood: profile log-likelihood of the signals, marked at the parameter used"""
        if box is not True:
            if box is False:
                self.refused("likelihood_without_box_cox", o.drawBoxCoxLikelihood)
            return
        fig, ax = self.take(o.drawBoxCoxLikelihood, what="likelihood", named=len(y) % 2 == 0)
        if fig is None:
            return
        lam = o.getBoxCoxParameter()
        c = self.joined(ax)
        mark = [np.array(t.get_offsets()) for t in ax.collections]
        pts = np.concatenate(mark + self.points(ax)) if mark or self.points(ax) else np.zeros((0, 2))
        shift = 0.0 if y.min() >= 0 else -y.min() + 100
        z = y + shift
        n = len(z)
        ref = lambda l: -n / 2 * math.log(np.var(R.boxcox(z, l))) + (l - 1) * np.log(z).sum()
        if len(c) == 1 and len(pts):
            t = c[0]
            k = np.array([ref(l) for l in t[:, 0]])
            # up to a constant
            self.near("likelihood_curve", t[:, 1] - t[0, 1], k - k[0], 1e-6 * (1 + np.abs(k - k[0])) + 1e-6)
            self.near("parameter_marked", pts[0, 0], lam, 1e-6 * (1 + abs(lam)))
            self.near("likelihood_at_the_parameter", pts[0, 1] - t[0, 1], ref(lam) - k[0], 1e-5 * (1 + abs(ref(lam) - k[0])))
        else:
            self.near("likelihood_has_a_curve_and_a_mark", [len(c), len(pts)], [1, 1])
        plt.close("all")


def signals(o, y, box):
    """kept signals on the working scale"""
    if box is False:
        return y
    lam = o.getBoxCoxParameter()
    return R.boxcox(y + (0.0 if y.min() >= 0 else -y.min() + 100), lam)


def metamodel(case):
    kind, s, dim, cens, box, low = case["kind"], case["s"], case["dim"], case["cens"], case["box"], case["low"]
    x, y = S.surf_data(45, dim, s, 0.4)
    if low == "tiny":
        y = np.round(y / 60.0, 5)          # signals between 0 and 1
    elif low == "negative":
        y = np.round(y - 60.0, 4)
    det = float(np.quantile(y, 0.5))
    noise, sat, k = None, None, np.ones(len(y), bool)
    if cens:
        noise, sat = float(np.quantile(y, 0.06)), float(np.quantile(y, 0.95))
        k = (y > noise) & (y < sat)
    kw = {"degree": 2} if kind == "chaos" else {"start": 0}
    if kind == "adaptive":
        kw.update(model=ot.PythonFunction(dim, 1, lambda t: [float(S.surf(np.array(t))[0])]), more=2, cand=3)
    o = S.build(kind, x, y.reshape(-1, 1), det, noise, sat, box, sim=3, sampling=40, **kw)
    pg = Page(str(case))
    if kind != "adaptive":
        pg.refused("validation_before_run", o.drawValidationGraph)
    S.run(o, s)
    xk, yk = x[k], y[k]
    if kind == "adaptive":
        xk, yk = np.array(o.getInputDOE()), np.array(o.getOutputDOE()).ravel()
    z = signals(o, yk, box)
    if np.std(z) < 1e-6:
        return []
    fig, ax = pg.take(o.drawValidationGraph, what="validation", named=s % 2 == 0)
    if fig is not None:
        sc = float(np.std(z))
        if kind == "chaos":
            pred, tol = np.array(o.getPolynomialChaosResult().getMetaModel()(xk)).ravel(), 1e-6 * sc
        else:
            res = o.getKrigingResult()
            K = c06.Krige(xk, z, res.getCovarianceModel(), res.getBasis())
            pred, tol = z - K.loo_residuals(), 1e-4 * sc
            if np.linalg.cond(K.K) > 1e10:
                pred = None
        pts = pg.points(ax)
        pg.near("one_cloud_of_points", len(pts), 1)
        if pts:
            if pred is not None:
                pg.pairs("signals_and_predictions", pts[0], np.c_[z, pred], tol)
            pg.visible(ax, pts[0])
        for t in pg.joined(ax):
            pg.near("diagonal", t[:, 0], t[:, 1], 1e-12)
        plt.close("all")
    if kind != "adaptive":
        pg.likelihood(o, yk, box)
    if kind == "chaos":
        if dim == 1:
            fig, ax = pg.take(o.drawPolynomialChaosModel, what="chaos_model", named=s % 2 == 1)
            if fig is not None:
                f = o.getPolynomialChaosResult().getMetaModel()
                pts, cur = pg.points(ax), pg.joined(ax)
                pg.near("data_and_curve", [len(pts), len(cur)], [1, 1])
                if pts and cur:
                    pg.pairs("data_of_the_chaos_graph", pts[0], np.c_[xk.ravel(), z], 1e-9)
                    pg.near("curve_is_the_metamodel", cur[0][:, 1], np.array(f(cur[0][:, :1])).ravel(), 1e-9 * (1 + np.abs(z).max()))
                    pg.near("curve_over_the_data", [cur[0][:, 0].min(), cur[0][:, 0].max(), float((np.diff(cur[0][:, 0]) < 0).any())], [xk.min(), xk.max(), 0], 1e-9)
                plt.close("all")
        else:
            pg.refused("chaos_model_of_several_inputs", o.drawPolynomialChaosModel)
    return pg.evs


def quantiles(case):
    s, cens, box = case["s"], case["cens"], case["box"]
    x, y = S.line_data(60, s, noise=2.0)
    noise = sat = None
    k = np.ones(len(y), bool)
    if cens:
        noise, sat = float(np.quantile(y, 0.08)), float(np.quantile(y, 0.93))
        k = (y > noise) & (y < sat)
    o = S.build("qr", x.reshape(-1, 1), y.reshape(-1, 1), float(np.quantile(y, 0.5)), noise, sat, box, sim=2, quantiles=[0.5])
    ok, _ = call(S.run, o, s)
    if not ok:
        return []
    pg = Page(str(case))
    xk, z = x[k], signals(o, y[k], box)
    for i, p in enumerate((0.2, 0.5, 0.9)):
        fig, ax = pg.take(o.drawLinearModel, p, what="quantile_model", named=i == s % 3)
        if fig is None:
            continue
        pts, cur = pg.points(ax), pg.joined(ax)
        pg.near("data_and_curve", [len(pts), len(cur)], [1, 1])
        if pts and cur:
            pg.pairs("data_of_the_quantile_graph", pts[0], np.c_[xk, z], 1e-9)
            ref = QuantReg(z, np.c_[np.ones(len(xk)), xk]).fit(1 - p).params
            pg.near("quantile_line", cur[0][:, 1], ref[0] + ref[1] * cur[0][:, 0], 1e-4 * float(np.std(z)))
            pg.near("line_over_the_data", [cur[0][:, 0].min(), cur[0][:, 0].max()], [xk.min(), xk.max()])
            below = float(np.mean(pts[0][:, 1] < ref[0] + ref[1] * pts[0][:, 0]))
            pg.near("share_of_the_signals_below_the_line", below, 1 - p, 0.08)
        t = re.search(r"1 - ([\d.]+)", ax.get_title())
        pg.near("level_in_the_title", float(t.group(1)) if t else -1, p)
        plt.close("all")
    pg.likelihood(o, y[k], box)
    return pg.evs


def linear(case):
    """graphs of a linear study with Box-Cox: only the likelihood"""
    s, cens, box = case["s"], case["cens"], case["box"]
    x, y = S.line_data(40, s, noise=3.0)
    noise = sat = None
    k = np.ones(len(y), bool)
    if cens:
        noise, sat = float(np.quantile(y, 0.1)), float(np.quantile(y, 0.9))
        k = (y > noise) & (y < sat)
    o = S.build(("gauss", "binomial", "kernel")[s % 3], x.reshape(-1, 1), y.reshape(-1, 1), float(np.quantile(y, 0.5)), noise, sat, box, sim=3)
    S.run(o, s)
    pg = Page(str(case))
    pg.likelihood(o, y[k], box)
    return pg.evs


def analysis(case):
    s, cens, box, law = case["s"], case["cens"], case["box"], case["law"]
    x, y = S.line_data(40, s, noise=2.0)
    noise = float(np.quantile(y, 0.12)) if "n" in cens else None
    sat = float(np.quantile(y, 0.9)) if "s" in cens else None
    S.seed(s)
    o = otpod.UnivariateLinearModelAnalysis(x.reshape(-1, 1), y.reshape(-1, 1), noise, sat, law and getattr(ot, law)(), box)
    xu, yu, xn, xs = R.split(x, y, noise, sat)
    z = signals(o, yu, box)
    pg = Page(str(case))
    cols = ["uncensored"] + (["censored"] if cens else [])
    res, laws = np.array(o.getResiduals()), o.getResidualsDistribution()
    sc = float(np.std(z))
    for c, col in enumerate(cols):
        b0, b1 = o.getIntercept()[c], o.getSlope()[c]
        a = () if col == "uncensored" and s % 2 else (col,)
        fig, ax = pg.take(o.drawLinearModel, *a, what="linear_model", named=s % 2 == c)
        if fig is not None:
            pts, cur = pg.points(ax), pg.joined(ax)
            pg.near("data_and_curve", [len(pts), len(cur)], [1, 1])
            if pts and cur:
                pg.pairs("data_of_the_linear_graph", pts[0], np.c_[xu, z], 1e-9)
                pg.near("line_of_the_" + col + "_fit", cur[0][:, 1], b0 + b1 * cur[0][:, 0], 1e-7 * (1 + sc))
                pg.near("line_over_the_data", [cur[0][:, 0].min(), cur[0][:, 0].max()], [xu.min(), xu.max()])
                pg.near("title_of_the_" + col, float("censored" in ax.get_title().lower()), float(col == "censored"))
        fig, ax = pg.take(o.drawResiduals, *a, what="residuals", named=s % 2 != c)
        if fig is not None:
            pts = pg.points(ax)
            pg.near("one_cloud_of_points", len(pts), 1)
            if pts:
                pg.pairs("residuals_of_the_" + col + "_fit", pts[0], np.c_[xu, res[:, c]], 1e-9)
                pg.near("residuals_are_signals_minus_line", np.sort(pts[0][:, 1]), np.sort(z - b0 - b1 * xu), 1e-6 * (1 + sc))
            seg = [t for l, t in segments(ax) if len(t) == 2]
            pg.near("zero_line", [t for u in seg for t in (u[:, 0].min(), u[:, 0].max(), u[0, 1], u[1, 1])], [xu.min(), xu.max(), 0, 0])
        fig, ax = pg.take(o.drawResidualsQQplot, *a, what="qqplot", named=s % 3 == c)
        if fig is not None:
            pts = [np.array(t.get_offsets()) for t in ax.collections] + pg.points(ax)
            pg.near("one_cloud_of_points", len(pts), 1)
            if pts:
                t = pts[0][np.argsort(pts[0][:, 0])]
                n = len(t)
                # interpolated quantiles are allowed
                rank = np.searchsorted(np.sort(res[:, c]) - 1e-9, t[:, 0])
                pg.near("empirical_quantiles_of_the_" + col, rank, np.arange(n) + 0.5, 1.0)
                u = [laws[c].computeCDF(v) for v in t[:, 1]]
                pg.near("quantiles_of_the_" + col + "_law", u, (np.arange(n) + 0.5) / n, 0.75 / n)
            for t in pg.joined(ax):
                pg.near("diagonal", t[:, 0], t[:, 1], 1e-12)
        fig, ax = pg.take(o.drawResidualsDistribution, *a, what="distribution", named=s % 3 != c)
        if fig is not None:
            shapes = pg.joined(ax)
            cur = max(shapes, key=len)
            pg.near("density_of_the_" + col + "_law", cur[:, 1], [laws[c].computePDF(t) for t in cur[:, 0]], 1e-6 * (1 + np.abs(cur[:, 1]).max()))
            n = len(xu)
            cells = []
            for b in ax.patches:
                w = ax.transData.inverted().transform_bbox(b.get_window_extent())
                cells.append((w.x0, w.x1, w.y1))
            for h in ax.collections:                     # the bars of the histogram
                for path in h.get_paths():
                    w = path.get_extents()
                    if w.width > 0 and w.height > 0:
                        cells.append((w.x0, w.x1, w.y1))
            for t in shapes:
                if t is not cur and not cells:
                    xs = np.unique(t[:, 0])
                    for u, v in zip(xs[:-1], xs[1:]):
                        i = [k for k in range(len(t) - 1) if min(t[k, 0], t[k + 1, 0]) <= u + 1e-12 and max(t[k, 0], t[k + 1, 0]) >= v - 1e-12 and t[k, 1] == t[k + 1, 1] and t[k, 1] > 0]
                        if i:
                            cells.append((u, v, max(t[k, 1] for k in i)))
            cells = [t for t in cells if (t[1] - t[0]) * t[2] * n > 1e-3]
            if cells:
                pg.near("histogram_of_unit_area", sum((v - u) * h for u, v, h in cells), 1.0, 1e-5)
                count = [float(np.sum((res[:, c] > u - 1e-9) & (res[:, c] <= v + 1e-9))) for u, v, h in cells]
                pg.near("histogram_of_the_" + col + "_residuals", [n * (v - u) * h for u, v, h in cells], count, 1e-3)
        plt.close("all")
    for f in (o.drawLinearModel, o.drawResiduals, o.drawResidualsQQplot, o.drawResidualsDistribution):
        pg.refused("unknown_model", f, "other")
        if not cens:
            pg.refused("censored_graph_without_censoring", f, "censored")
    pg.likelihood(o, yu, box)
    return pg.evs


def enrich(case):
    """graphs of the successive curves of an adaptive study"""
    kind, k, s, on, level, cl, where = (case[t] for t in ("kind", "more", "s", "on", "level", "cl", "dir"))
    x, y = S.surf_data(30, 2, s, noise=0.5)
    det = float(np.quantile(y, 0.5))
    fun = (lambda t: [float(S.surf(np.array(t))[0])])
    o = S.build(kind, x, y.reshape(-1, 1), det, sim=4, sampling=60, cand=8 if kind == "adaptive" else 60, more=k, model=ot.PythonFunction(2, 1, fun))
    pg = Page(str(case))
    d = tempfile.mkdtemp(prefix="verif_draw_")
    here = os.getcwd()
    plt.close("all")
    try:
        os.chdir(d)
        out = os.path.join(d, "a", "b") if where else None
        o.setGraphActive(on, level / 100.0 or None, cl / 100.0 or None, out)
        ok, v = call(S.run, o, s)
        if not ok and level and "does not contain" in str(v) or "confidence level" in str(v):
            return []
        pg.evs.append({"op": "accepted", "what": "run_with_graphs", "ok": bool(ok), "case": pg.who, "exc": "" if ok else repr(v)[:200]})
        figs = plt.get_fignums()
        names = sorted(directory(out), key=lambda t: (len(t), t)) if where and os.path.isdir(out) else []
        pg.evs.append({"op": "iterations", "on": on, "dir": where, "more": k, "batch": 5 if kind == "hitmiss" else 1, "shown": len(figs),
                       "files": [int(m.group(1)) if m and os.path.getsize(os.path.join(out, m.group(0))) > 1000 else -1
                                 for m in (re.fullmatch("Adaptive(?:Signal|HitMiss)POD_([0-9]+).png", t) for t in names)],
                       "others": [t for t in directory(d) if t != "a"], "case": pg.who})
        for n in figs:
            ax = plt.figure(n).axes[0]
            pg.evs.append({"op": "elements", "o": {"level": level, "cl": cl}, "els": [entry(l)["k"] for l, t in segments(ax)], "legend": [entry(t.get_text()) for t in ax.get_legend().get_texts()], "case": pg.who})
        if figs and ok and kind == "adaptive":
            # the last graph is the curve of the last iteration, at the sizes of the study
            c = next(t for l, t in segments(plt.figure(figs[-1]).axes[0]) if l == "POD")
            z = np.array(o.getDefectSizes())
            pg.near("range_of_the_iterations", [c[0, 0], c[-1, 0]], [z.min(), z.max()], 1e-6)
    finally:
        os.chdir(here)
        plt.close("all")
        shutil.rmtree(d)
    return pg.evs


def other(case):
    return {"enrich": enrich, "meta": metamodel, "qr": quantiles, "linear": linear, "analysis": analysis}[case["f"]](case)


def run(ctx):
    pick = ctx.pick
    const = dict(Levels="{0, 30, 57, 99}", Confs="{0, 80, 95}", Lows="{-99, 0, 2, -1}", Highs="{-99, 10, 7, 11}", Counts="{5, 12, 100}", Names="{0, 1, 2}",
                 Reach="{<<30, 0>>, <<57, 0>>, <<30, 80>>, <<30, 95>>}")
    inv = dict(invariants=["OnlyNamedFiles", "NamedFilesExist", "SizesOnCurves", "RefusedShowsNothing"], properties=["NeverErased"], timeout=900)
    one = ctx.cases("Graphs", constants=dict(const, MaxLen="1", Bounded="TRUE"), **inv)
    one += ctx.cases("Graphs", constants=dict(const, MaxLen="1", Bounded="FALSE"), **inv)[:0]
    many = ctx.cases("Graphs", constants=dict(const, MaxLen="3", Bounded="TRUE", Counts="{5, 12}"), simulate=pick(400, 4000), depth=5, **inv)
    for t in (one, many):
        ctx.rng.shuffle(t)
    # the plain requests first
    full = [c for c in one if c["h"][0]["level"] and c["h"][0]["cl"] and c["h"][0]["lo"] == -99 and c["h"][0]["hi"] == -99]
    studies = []
    for s in range(pick(3, 20)):
        for kind in ("binomial", "gauss", "kernel", "weibull", "qr"):
            for opt in ("", "cens", "box", "down"):
                if (kind == "qr" and opt == "down") or (kind == "weibull" and opt != "") or (s % 3 == 2 and opt == "down"):
                    continue
                studies.append((kind, s, opt))
        studies += [(k, s, "") for k in ("chaos", "kriging", "hitmiss")]
        if s < pick(2, 8):
            studies.append(("adaptive", s, ""))
    cases = []
    for i, st in enumerate(studies):
        n = pick(6, 14)
        hs = [c["h"] for c in (one[i * n:(i + 1) * n] or one[:n]) + full[i % len(full):][:2] + (many[i * 2:i * 2 + 2] or many[:2])]
        cases.append({"study": list(st), "h": hs})
    ctx.extra["studies_drawn"] = len(cases)
    ctx.extra["option_sets"] = len(one)
    traces = ctx.replay(play, sorted(cases, key=lambda c: c["study"][0] not in ("adaptive", "kriging")), limit=300)
    rest = []
    for s in range(pick(4, 30)):
        for i, (cens, box, low) in enumerate(((False, False, ""), (True, False, "negative"), (False, True, ""), (True, 0.5, ""), (False, True, "tiny"), (False, 0.0, "tiny"), (False, False, "negative"))):
            for kind in ("chaos", "kriging"):
                dim = 2 + s % 2 if kind == "kriging" else 1 + (s + i) % 3
                rest.append(dict(f="meta", kind=kind, s=s, dim=dim, cens=cens, box=box, low=low))
        if s < pick(2, 8):
            rest.append(dict(f="meta", kind="adaptive", s=s, dim=2, cens=False, box=(False, True)[s % 2], low=""))
        for kind, ks in (("adaptive", (0, 1, 3)), ("hitmiss", (0, 1, 7, 12))):
            for i, k in enumerate(ks):
                if kind == "hitmiss" or s < pick(1, 6):
                    rest.append(dict(f="enrich", kind=kind, more=k, s=s, on=(s + i) % 4 != 3, level=(0, 50)[(s + i) % 2], cl=(0, 80, 0)[(s + i) % 3], dir=(s + i) % 3 != 2))
        for cens in (False, True):
            for box in (False, True, 0.3):
                rest.append(dict(f="qr", s=s, cens=cens, box=box))
                rest.append(dict(f="linear", s=s, cens=cens, box=box))
        for cens in ("", "n", "s", "ns"):
            for box in (False, True, 0.4):
                rest.append(dict(f="analysis", s=s, cens=cens, box=box, law=(None, "NormalFactory", "LogisticFactory", "KernelSmoothing")[(s + len(cens)) % 4]))
    tr = ctx.replay(other, rest, limit=300)
    ctx.extra["other_graphs_cases"] = len(rest)
    empty = sum(1 for t in traces + tr if not t)
    ctx.extra["studies_without_run"] = empty
    if empty > (len(cases) + len(rest)) // 4:
        tr.append([{"op": "crash", "case": "studies", "exc": "more than a quarter of the studies do not run"}])
    flat = [e for t in traces + tr for e in t]
    dr = [e for e in flat if e["op"] == "draw"]
    ctx.extra["graphs_drawn"] = sum(e["ok"] for e in dr)
    ctx.extra["graphs_refused"] = sum(not e["ok"] for e in dr)
    ctx.extra["graphs_with_both_sizes"] = sum(e["ok"] and len(e["sizes"]) == 2 for e in dr)
    ctx.extra["comparisons"] = sum(e["op"] == "near" for e in flat)
    ctx.sample(cases[0])
    ctx.validate("GraphsTrace", [t for t in traces + tr if t], broken=False)
    good = next(e for e in dr if e["ok"] and len(e["sizes"]) == 2 and not e["o"]["name"])

    def bad(f):
        e = copy.deepcopy(good)
        e["files"] = []
        f(e)
        ctx.must_reject("GraphsTrace", [[{"op": "start"}, e]], broken=False)

    bad(lambda e: e["els"].pop())
    bad(lambda e: e.__setitem__("size", e["size_cl"]))
    bad(lambda e: e["pod"]["y"].__setitem__(2, fx(7.0)))
    bad(lambda e: e.__setitem__("files", [1]))
    bad(lambda e: next(l for l in e["legend"] if l["k"] == "cl").__setitem__("c", 1))
    return ctx.finish()
