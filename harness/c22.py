"""C22 verbosity and progress."""
import contextlib
import inspect
import io
import re

import numpy as np
import openturns as ot

import otpod
import studies as S
from common import call, fp

PAT = re.compile(r"([^\r\n]*?): \[(=*)(-*)\] (\d+\.\d\d)% ?(Done)?")


def parse(txt):
    out = []
    for m in PAT.finditer(txt.replace("\r\n", "\n").replace("\r", "\n")):
        out.append({"block": len(m.group(2)), "rest": len(m.group(3)), "pct": int(round(float(m.group(4)) * 100)),
                    "done": m.group(5) == "Done"})
    return out


def captured(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    return buf.getvalue()


def do_direct(chunk):
    try:
        from otpod._progress_bar import updateProgress

        names = list(inspect.signature(updateProgress).parameters)
        if names[:2] != ["i", "nIter"] or "nFlush" not in names or "barLength" not in names:
            return []
    except ImportError:
        return []
    evs = []
    for n, f, b in chunk:
        txt = captured(lambda: [updateProgress(i, n, "loop", nFlush=f, barLength=b) for i in range(n)])
        evs.append({"op": "progress", "n": n, "loops": 1, "bar": b, "reports": parse(txt), "how": "direct", "f": f})
    return evs


def data(kind):
    if kind == "qr":   # enough data for every bootstrap sample to cross the detection threshold
        x, y = S.line_data(40, s=2, noise=1.0)
        return x.reshape(-1, 1), y.reshape(-1, 1), 25.0
    if kind in ("binomial", "gauss", "kernel"):
        x, y = S.line_data(14, s=2)
        return x.reshape(-1, 1), y.reshape(-1, 1), 25.0
    if kind == "chaos1":
        x, y = S.line_data(14, s=2)
        return x.reshape(-1, 1), y.reshape(-1, 1), 25.0
    x, y = S.surf_data(20, 2, s=4)
    return x, y.reshape(-1, 1), 24.0


def make(kind, n, verbose):
    x, y, det = data(kind)
    grid = np.linspace(x[:, 0].min(), x[:, 0].max(), 5)
    model = ot.SymbolicFunction(["a", "b"], ["4+40*a+6*b+3*a*b"])
    if kind == "chaos1":
        o = S.build("chaos", x, y, det, sim=n, sampling=20, degree=1, verbose=verbose)
    elif kind == "chaos":
        o = S.build("chaos", x, y, det, sim=n, sampling=20, degree=1, verbose=verbose)
    elif kind == "qr":
        o = S.build("qr", x, y, det, sim=n, quantiles=[0.5], verbose=verbose)
    elif kind == "kriging":
        o = S.build("kriging", x, y, det, sim=3, sampling=8, sizes=np.linspace(grid[0], grid[-1], max(n, 2)),
                    verbose=verbose)
    elif kind == "adaptive":
        o = S.build("adaptive", x, y, det, model=model, more=n % 3, cand=4 + n, sim=2, sampling=5,
                    sizes=np.linspace(grid[0], grid[-1], 2 + n % 5), verbose=verbose)
    elif kind == "hitmiss":
        o = S.build("hitmiss", x, y, det, model=model, more=n, cand=150, sampling=20, verbose=verbose)
        o.setClassifierParameters([[3], [None], [2], [0]])
    else:
        o = S.build(kind, x, y, det, sim=n, verbose=verbose)
    return o, grid


LOOPS = {"kernel": 1, "qr": 1, "chaos": 1, "chaos1": 1, "kriging": 1, "hitmiss": 1, "binomial": 0, "gauss": 0}


def do_run(case):
    kind, n = case
    o, grid = make(kind, n, True)
    S.seed(11)
    txt = captured(o.run)
    reps = parse(txt)
    loops = n % 3 + 1 if kind == "adaptive" else LOOPS[kind]
    if kind == "hitmiss" and n == 0:
        loops = 0
    nn = n if kind in ("kernel", "qr", "chaos", "chaos1") else 0
    evs = [{"op": "progress", "n": nn, "loops": loops, "bar": 50, "reports": reps, "how": kind, "f": n}]
    on = S.answers(o, grid, levels=((0.5, None),))
    o2, _ = make(kind, n, False)
    S.seed(11)
    quiet = captured(o2.run)
    off = S.answers(o2, grid, levels=((0.5, None),))
    evs.append({"op": "verbose", "quiet": len(quiet), "on": fp(on), "off": fp(off), "nb": len(on), "how": kind, "f": n})
    # switching verbosity after a run does not change the answers either
    o2.setVerbose(True)
    evs.append({"op": "verbose", "quiet": 0, "on": fp(S.answers(o2, grid, levels=((0.5, None),))), "off": fp(off),
                "nb": len(on), "how": kind + " toggled", "f": n})
    return evs


def do_summary(case):
    dim, = case
    if dim == 1:
        x, y, det = data("qr")
    else:
        x, y, det = data("chaos")

    def one(v):
        s = otpod.PODSummary(x, y, det)
        s.setVerbose(v)
        s.setSimulationSize(5)
        s.setSamplingSize(30)
        s.setMethodActive("Kriging", False)
        S.seed(5)
        t = captured(s.run)
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            r = s.getResults()
        return t, r + b.getvalue()

    t1, r1 = one(True)
    t2, r2 = one(False)
    return [{"op": "verbose", "quiet": len(t2), "on": fp(r1), "off": fp(r2), "nb": len(r1), "how": "summary", "f": dim},
            {"op": "progress", "n": 0, "loops": 3, "bar": 50, "reports": parse(t1), "how": "summary", "f": dim}]


def run(ctx):
    cs = ctx.cases("Progress", constants={"MaxN": ctx.pick(70, 260), "Flushes": ctx.pick("{1, 7, 50}", "{1, 2, 3, 7, 20, 50, 51}"),
                                          "Bars": ctx.pick("{3, 50}", "{1, 3, 10, 50}")},
                   invariants=["EndsOnce", "NotBefore"], properties=["Monotone"])
    ns = sorted(set(c["n"] for c in cs))
    items = sorted(set((c["n"], c["f"], c["b"]) for c in cs))
    items += [(n, 50, 50) for n in (74, 75, 76, 99, 100, 101, 124, 125, 126, 149, 175, 199, 225, 333, 999, 1000, 1001, 5000)]
    ctx.extra["loops_direct"] = len(items)
    traces = ctx.replay(do_direct, [items[i:i + 60] for i in range(0, len(items), 60)])
    runs = []
    big = [74, 75, 76, 99, 101, 126, 149, 174, 176, 301] + ([999, 1001, 2501] if ctx.thorough else [])
    for kind in ("kernel", "qr", "chaos1", "chaos"):
        step = {"kernel": 1, "chaos1": 2, "chaos": 9, "qr": 9}[kind] if not ctx.thorough else 1
        runs += [(kind, n) for n in ns[::step]]
        runs += [(kind, n) for n in (big if kind in ("kernel", "chaos1") else big[:5])]
    runs += [("kriging", n) for n in ctx.pick([2, 5, 20, 49, 51, 76, 101], list(range(2, 130)))]
    runs += [("adaptive", n) for n in ctx.pick([0, 1, 2, 5], list(range(12)))]
    runs += [("hitmiss", n) for n in ctx.pick([0, 1, 4, 5, 7, 53, 78, 81], [0, 1, 2, 3, 4, 5, 6, 7, 11, 49, 51, 53, 76, 77, 78, 79, 81, 83, 99, 101, 127])]
    runs += [("binomial", 3), ("gauss", 5)]
    ctx.extra["loops_through_runs"] = len(runs)
    traces += ctx.replay(do_run, sorted(runs, key=lambda r: -r[1]), limit=300)
    traces += ctx.replay(do_summary, [(1,), (2,)], limit=300)
    ctx.sample(traces[0][-1] if traces[0] else "no direct access to the progress function")
    ctx.sample(runs[5])
    ctx.validate("ProgressTrace", traces)
    r = {"block": 1, "rest": 1, "pct": 5000, "done": False}
    ctx.must_reject("ProgressTrace", [[{"op": "progress", "n": 2, "loops": 1, "bar": 2, "reports": [r]}]])
    ctx.must_reject("ProgressTrace", [[{"op": "verbose", "quiet": 0, "on": 1, "off": 2, "nb": 1}]])
