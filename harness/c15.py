"""C15 summary: the union of its active methods."""
import contextlib
import copy
import io
import os
import re
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np

import otpod
import studies as S
from common import NANO, call, fx, fxs

M = {"LinearGauss": "getLinearGaussPOD", "LinearBinomial": "getLinearBinomialPOD", "LinearKernelSmoothing": "getLinearKernelSmoothingPOD",
     "QuantileRegression": "getQuantileRegressionPOD", "PolynomialChaos": "getPolynomialChaosPOD", "Kriging": "getKrigingPOD"}
KIND = {"LinearGauss": "gauss", "LinearBinomial": "binomial", "LinearKernelSmoothing": "kernel", "QuantileRegression": "qr", "PolynomialChaos": "chaos", "Kriging": "kriging"}
LABEL = {"Gaussian residuals": "LinearGauss", "No residuals hypothesis": "LinearBinomial", "Kernel smoothing on residuals": "LinearKernelSmoothing",
         "Quantile Regression": "QuantileRegression", "Polynomial chaos": "PolynomialChaos", "Polynomial Chaos": "PolynomialChaos", "Kriging": "Kriging", "Linear Regression": "Linear"}
LEVELS = [(0.9, 0.95), (0.5, 0.8), (0.97, 0.5), (0.99, 0.9), (0.29, 0.57), (0.91, 0.58)]
NAN = [-2000000000, 0]


def label(v):
    """a level (whole percents) as the detection sizes are named"""
    return "%d" % round(v * 100)


def number(t):
    t = t.strip()
    return NAN if t == "" else fx(float(t))


class Live:
    def __init__(self, case):
        self.c = case
        # the first input dominates, so that the methods on one input apply
        x, _ = S.surf_data(case["n"], case["dim"], case["s"] % 7 + 2)
        x[:, 1:] = np.round(x[:, 1:] * 0.4, 4)
        y = np.round(S.surf(x) + np.random.RandomState(case["s"] % 7 + 50).randn(len(x)), 4)
        self.x, self.y = x, y
        r = np.sort(y)
        self.thr = {"": (None, None), "noise": (float(r[1]), None), "sat": (None, float(r[-2])), "both": (float(r[1]), float(r[-2]))}[case["cens"]]
        self.det = float(np.quantile(y, (0.5, 0.5, 0.6, 0.42)[case["s"] % 4]))
        self.o = otpod.PODSummary(x, y.reshape(-1, 1), self.det, self.thr[0], self.thr[1], case["box"])
        self.o.setVerbose(False)
        self.runs = 0
        self.k = 0
        for m in M:
            if m not in case["on"]:
                self.o.setMethodActive(m, False)
        self.evs = [self.event("start", True, on=case["on"], multi=case["dim"] > 1)]

    def event(self, op, ok, **kw):
        got = {}
        for m, g in M.items():
            good, st = call(getattr(self.o, g))
            got[m] = 0 if not good else -1 if m == "LinearBinomial" else st.getSimulationSize() - 3
        return dict({"op": op, "ok": ok, "got": got, "case": str(self.c)[:300]}, **kw)

    def levels(self):
        self.k += 1
        return LEVELS[(self.c["s"] + self.k) % len(LEVELS)]

    def step(self, k, m):
        o = self.o
        if k == "toggle":
            on = not o.getMethodActive()[m]
            ok, _ = call(o.setMethodActive, m, on)
            self.evs.append(self.event(k, ok, m=m))
        elif k == "run":
            self.runs += 1
            o.setSimulationSize(self.runs + 3)
            o.setSamplingSize(20 + self.runs)
            ok, x = call(S.run, o, self.c["s"])
            self.evs.append(self.event(k, ok, exc="" if ok else str(x)[:150]))
            if ok:
                self.settings()
        elif k == "draw":
            self.draw()
        else:
            self.show(k, *self.levels())
            odd = self.uneven()
            if odd:
                self.show(k, *odd)
        plt.close("all")

    def study(self, m):
        ok, st = call(getattr(self.o, M[m]))
        return st if ok else None

    def settings(self):
        for m in M:
            st = self.study(m)
            if st is not None and m in ("PolynomialChaos", "Kriging"):
                self.evs.append({"op": "settings", "m": m, "ok": st.getSamplingSize() == 20 + self.runs and st.getSimulationSize() == 3 + self.runs})

    # -------------------------------------------------------------- the table
    def uneven(self):
        """levels at which some of the methods have detection sizes and others not"""
        st = [self.study(m) for m in ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing")]
        st = [t for t in st if t is not None]
        if len(st) < 2:
            return None
        found = []
        for p, c in [(p, c) for c in (0.58, 0.9) for p in (0.01, 0.02, 0.05, 0.2, 0.5, 0.8, 0.95, 0.99)]:
            if len({call(t.computeDetectionSize, p, c)[0] for t in st}) == 2:
                found.append((p, c))
        return found[self.k % len(found)] if found else None

    def show(self, k, p, c):
        if k == "table":
            ok, t = call(lambda: self.printed(p, c))
            rows = parse_table(t) if ok else None
        else:
            d = tempfile.mkdtemp(prefix="verif_sum_")
            try:
                f = os.path.join(d, "r.csv")
                ok, t = call(self.o.saveResults, f, p, c)
                rows = parse_file(open(f).read()) if ok else None
            finally:
                shutil.rmtree(d)
        if rows is None:
            self.evs.append(self.event(k, ok, pods=[], valid=[], head="", label=""))
            return
        valid, pods, head = rows
        lin = [g for g in ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing") if self.study(g) is not None]
        for r in pods:
            st = self.study(r["m"])
            r["wa"], r["wc"] = NAN, NAN
            if st is not None:
                g, v = call(lambda: list(st.computeDetectionSize(p, c)))
                r["wa"], r["wc"] = fxs(v) if g else fxs([-1, -1])
        for r in valid:
            r["wr2"] = r["wq2"] = r["wc2"] = NAN
            if r["m"] == "Linear":
                S.seed(1)
                kept = self.alone_analysis()
                v = list(kept.getR2())
                r["wr2"] = fx(v[0])
                if self.c["cens"]:
                    r["wc2"] = fx(v[1])
            else:
                st = self.study(r["m"])
                if st is not None:
                    if r["m"] == "QuantileRegression":
                        r["wr2"] = fx(st.getR2(p))
                    if r["m"] == "PolynomialChaos":
                        r["wr2"] = fx(st.getR2())
                    if r["m"] in ("PolynomialChaos", "Kriging"):
                        r["wq2"] = fx(st.getQ2())
        self.evs.append(self.event(k, ok, pods=pods, valid=valid, head=head, label="a%s a%s/%s" % (label(p), label(p), label(c))))

    def printed(self, p, c):
        with contextlib.redirect_stdout(io.StringIO()):
            return self.o.getResults(p, c)

    def alone_analysis(self):
        import openturns as ot
        return otpod.UnivariateLinearModelAnalysis(self.x[:, 0], self.y.reshape(-1, 1), self.thr[0], self.thr[1], ot.NormalFactory(), self.c["box"])

    # ------------------------------------------------------------- the graphs
    def draw(self):
        lv = self.k % 3
        p, c = self.levels()
        if lv == 1:
            c = None
        if lv == 2:
            p = c = None
        ext = ("png", "pdf", "svg")[self.k % 3]
        d = tempfile.mkdtemp(prefix="verif_sum_")
        try:
            if self.k % 2:
                ok, f = call(self.o.drawGraphs, d, ext, p, c)
            else:      # without a directory: where the user is
                here = os.getcwd()
                os.chdir(d)
                try:
                    ok, f = call(self.o.drawGraphs, None, ext, p, c)
                finally:
                    os.chdir(here)
            names = [os.path.splitext(n)[0] if n.endswith("." + ext) and os.path.getsize(os.path.join(d, n)) > 0 else "bad:" + n for n in os.listdir(d)]
        finally:
            shutil.rmtree(d)
        plt.close("all")
        drawable = []
        for m in M:
            st = self.study(m)
            if st is not None and call(st.drawPOD, p, c)[0]:
                drawable.append(m)
        plt.close("all")
        self.evs.append(self.event("draw", ok, files=names, n=len(f) if ok else 0, drawable=drawable, level=p is not None, cens=self.c["cens"] != "", box=bool(self.c["box"]) and not isinstance(self.c["box"], float),
                                   exc="" if ok else str(f)[:150]))

    # ---------------------------------------------------- the studies on their own
    def alone(self):
        c = self.c
        for m in M:
            st = self.study(m)
            if st is None:
                continue
            multi = m in ("PolynomialChaos", "Kriging")
            x = self.x if multi else self.x[:, 0]
            kw = dict(sampling=20 + self.runs) if multi else {}
            a = S.build(KIND[m], x, self.y.reshape(-1, 1), self.det, self.thr[0], self.thr[1], c["box"], sim=self.runs + 3, **kw)
            if m == "QuantileRegression":
                a.setQuantile(st.getQuantile())
            if m == "Kriging":
                a.setInitialStartSize(100)
            S.run(a, c["s"] + 1)
            if m == "Kriging":
                A, B, tol = [st.getQ2()], [a.getQ2()], [0.05]
            elif m == "PolynomialChaos":
                A, B, tol = [st.getQ2(), st.getR2()], [a.getQ2(), a.getR2()], [1e-6, 1e-6]
                A += list(np.array(st.getPolynomialChaosResult().getMetaModel()(self.x[:6])).ravel())
                B += list(np.array(a.getPolynomialChaosResult().getMetaModel()(self.x[:6])).ravel())
                tol += [1e-6] * 6
            else:
                grid = np.linspace(0.15, 0.75, 9)
                A, B = S.values(st.getPODModel(), grid), S.values(a.getPODModel(), grid)
                if m == "LinearBinomial":
                    A += S.values(st.getPODCLModel(0.9), grid)
                    B += S.values(a.getPODCLModel(0.9), grid)
                tol = [1e-6 if m != "QuantileRegression" else 1e-3] * len(A)
            if multi:
                A += list(np.array(st.getDefectSizes()).ravel())[:3]
                B += list(np.array(a.getDefectSizes()).ravel())[:3]
                tol += [1e-9] * 3
            self.evs.append({"op": "alone", "m": m, "a": fxs(A), "b": fxs(B), "tol": [int(t * NANO) + 1 for t in tol], "case": str(c)[:300]})


def named(t):
    t = t.strip()
    for k, m in LABEL.items():
        if t.startswith(k):
            return m
    return t


def rows(lines):
    """the two tables, lines already cut into cells"""
    valid, pods, head, where = [], [], "", ""
    for cells in lines:
        t = cells[0].strip()
        if t.startswith("Model validation results"):
            where = "valid"
        elif t.startswith("POD results"):
            where = "pods"
        elif where == "valid" and ">" in t:
            valid.append({"m": named(t), "r2": number(cells[1]), "q2": number(cells[2]), "c2": number(cells[3])})
        elif where == "pods" and t == "" and any(v.strip() for v in cells[1:3]):
            head = " ".join(v.strip() for v in cells[1:3])
        elif where == "pods" and t and set(t) != {"-"} and not t.startswith("Warning"):
            if t.startswith("Linear Regression"):
                continue
            pods.append({"m": named(t), "a": number(cells[1]), "c": number(cells[2])})
    return valid, pods, head


def parse_table(t):
    out, where = [], ""
    for l in t.split("\n"):
        if "Model validation results" in l:
            where = "valid"
        if "POD results" in l:
            where = "pods"
        w = (42, 10, 10, 10) if where == "valid" else (47, 13, 13)
        # labels may be longer than their column: the cells are right-aligned from the end
        if "results" in l or set(l.strip()) == {"-"}:
            out.append([l, "", "", ""])
            continue
        m = sum(w[1:]) + len(w) - 1
        head, tail = l[:-m] if len(l) > m else l, l[-m:] if len(l) > m else ""
        cells, p = [head], 0
        for n in w[1:]:
            p += 1
            cells.append(tail[p:p + n])
            p += n
        out.append(cells + [""] * (4 - len(cells)))
    return rows(out)


def parse_file(t):
    return rows([(l.split("\t") + ["", "", ""])[:4] for l in t.split("\n")])


def play(case):
    c, hist = case
    live = Live(c)
    for h in hist:
        live.step(h["k"], h["m"])
    if c["alone"]:
        live.alone()
    return live.evs


def run(ctx):
    pick = ctx.pick
    q = "{%s}" % ", ".join('"%s"' % m for m in M)
    inv = dict(invariants=["LastRunOnly", "NothingForInactive", "RowsHaveResults", "OneRowPerActive"], properties=["ActivateDoesNotRun", "AskingChangesNothing"])
    cases, i = [], 0
    cfg = [dict(dim=2), dict(dim=1), dict(dim=2, cens="both"), dict(dim=1, cens="noise"), dict(dim=2, box=0.5), dict(dim=2, cens="sat"), dict(dim=1, box=True), dict(dim=3)]
    for multi in (True, False):
        got = ctx.cases("Summary", constants=dict(Methods=q, Multi=str(multi).upper(), Starts="SUBSET " + q, MaxLen="3"), timeout=700, **inv)
        some = ctx.cases("Summary", constants=dict(Methods=q, Multi=str(multi).upper(), Starts="{%s, {\"LinearGauss\", \"Kriging\"}, {\"QuantileRegression\"}}" % q, MaxLen="7"),
                         simulate=pick(4000, 20000), depth=9, timeout=700, **inv)
        both = []
        for s, n in ((got, pick(70, 700)), (some, pick(60, 700))):
            # histories in which something is shown after a run
            s = [c for c in s if any(h["k"] == "run" for h in c["h"])]
            good = [c for c in s if any(a["k"] == "run" and any(b["k"] in ("table", "save", "draw") for b in c["h"][j + 1:]) for j, a in enumerate(c["h"]))]
            rest = [c for c in s if c not in good] if len(s) < 5000 else s[:500]
            ctx.rng.shuffle(good)
            ctx.rng.shuffle(rest)
            both += good[:n] + rest[:n // 5]
        use = [d for d in cfg if (d["dim"] > 1) == multi]
        for c in both:
            d = dict(dict(dim=2, cens="", box=False, n=40, s=i, on=sorted(c["on"]), alone=i % 4 == 0), **use[i % len(use)])
            cases.append((d, c["h"]))
            i += 1
    # every subset of the methods: table, file and graphs after a run
    full = [{"k": k, "m": ""} for k in ("run", "table", "save", "draw")]
    for b in range(64):
        on = [m for j, m in enumerate(sorted(M)) if b >> j & 1]
        for d in (cfg[b % len(cfg)], cfg[(b + 3) % len(cfg)]):
            cases.append((dict(dict(dim=2, cens="", box=False, n=40, s=i, on=on, alone=i % 3 == 0), **d), full))
            i += 1
    ctx.rng.shuffle(cases)
    ctx.extra["histories"] = len(cases)
    evs = ctx.replay(play, cases, limit=pick(200, 300))
    ctx.sample({"config": cases[0][0], "history": cases[0][1]})
    ctx.validate("SummaryTrace", evs, broken=False)
    good = [t for t in evs if any(e["op"] == "table" and e["ok"] and len(e["pods"]) > 1 for e in t)][0]

    def bad(f):
        t = copy.deepcopy(good)
        f([e for e in t if e["op"] == "table" and e["ok"] and len(e["pods"]) > 1][0])
        ctx.must_reject("SummaryTrace", [t], broken=False)

    bad(lambda e: e["pods"].pop())
    bad(lambda e: e["pods"][0].__setitem__("a", [e["pods"][0]["a"][0] + 1, e["pods"][0]["a"][1]]))
    bad(lambda e: e["got"].__setitem__("LinearGauss", 77))
    return ctx.finish()
