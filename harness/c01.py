"""C01 censoring."""
import json

import numpy as np
import openturns as ot

import otpod
import studies as S
from common import call, fxs

NOTHR = -1000
SCALES = [(1.0, 0.0), (0.1, 0.0), (-0.0, 0.0)]


def scale(v, k):
    # three exact encodings of the model's integers: integers, decimals, negative values
    return {0: float(v), 1: v / 10.0, 2: v * 7.3 - 40.0}[k]


def do_filter(case):
    evs = []
    for sig, noise, sat, k, cont in case:
        n = len(sig)
        y = [scale(v, k) for v in sig]
        dim = 1 + (k + n + sum(sig)) % 3
        X = [[float(100 * (i + 1) + 1000 * j) for j in range(dim)] for i in range(n)]
        Y = [[v] for v in y]
        if cont == 1:
            X, Y = np.array(X), np.array(Y)
        elif cont == 2:
            X, Y = ot.Sample(X), ot.Sample(Y)
        nt = None if noise == NOTHR else scale(noise, k)
        st = None if sat == NOTHR else scale(sat, k)
        u, b, s, us = otpod.DataHandling.filterCensoredData(X, Y, nt, st)
        cols = True

        def idx(sample):
            nonlocal cols
            out = []
            for p in np.array(sample).reshape(-1, dim):
                i = int(round(p[0] / 100))
                out.append(i)
                cols = cols and all(p[j] == 100 * i + 1000 * j for j in range(dim))
            return out

        back = {scale(v, k): v for v in sig}
        evs.append({"op": "filter", "sig": sig, "noise": noise, "sat": sat, "unc": idx(u), "nse": idx(b),
                    "st": idx(s), "usig": [back.get(float(p[0]), -77) for p in np.array(us).reshape(-1, 1)],
                    "cols": bool(cols)})
    return evs


def data_for(kind, dim, v):
    if dim == 1:
        x, y = S.line_data(36, s=v + 1)
        x = x.reshape(-1, 1)
    else:
        x, y = S.surf_data(44, dim, s=v + 3)
    return x, np.round(y).astype(int)


def do_study(case):
    kind, dim, v, noise, sat, kept = case["kind"], case["dim"], case["v"], case["noise"], case["sat"], case["kept"]
    x, sig = data_for(kind, dim, v)
    y = sig.astype(float).reshape(-1, 1)
    nt = None if noise == NOTHR else float(noise)
    st = None if sat == NOTHR else float(sat)
    det = float(case["det"])
    base = {"sig": [int(s) for s in sig], "noise": noise, "sat": sat}
    idx = [k - 1 for k in kept]
    evs = []
    if kind in S.LIN:
        o = S.run(S.build(kind, x, y, det, nt, st, sim=8, box=case["box"]))
        grid = np.linspace(x.min(), x.max(), 7)
        ref = S.answers(o, grid)
        cens = [i for i in range(len(sig)) if i not in idx]
        for i in cens[:: max(1, len(cens) // 2)][:2]:
            y2 = y.copy()
            newv = int(sig[i]) - 7 if noise != NOTHR and sig[i] <= noise else int(sig[i]) + 9
            y2[i] = newv
            o2 = S.run(S.build(kind, x, y2, det, nt, st, sim=8, box=case["box"]))
            evs.append(dict(base, op="moved", k=i + 1, newv=newv, got=fxs(S.answers(o2, grid)), ref=fxs(ref),
                            study=kind))
        if cens and kind != "kernel" and len(cens) >= 5:
            x3 = x.copy()
            for i in cens:
                x3[i] = x3[i] + 0.3
            o3 = S.run(S.build(kind, x3, y, det, nt, st, sim=8, box=case["box"]))
            evs.append(dict(base, op="used", got=fxs(S.values(o3.getPODModel(), grid)),
                            ref=fxs(S.values(o.getPODModel(), grid)), study=kind))
        return evs
    if kind in ("adaptive", "hitmiss"):
        if kind == "adaptive":
            o = S.build(kind, x, y, det, nt, st, model=None, more=0)
        else:
            o = S.build(kind, x, y, det, nt, st, model=ot.SymbolicFunction(["x", "y"], ["x+y"]), more=0)
        d = np.array(o.getInputDOE())
        back = {tuple(p): i + 1 for i, p in enumerate(x.tolist())}
        out = np.array(o.getOutputDOE()).ravel()
        doe = [back.get(tuple(p), 0) for p in d.tolist()]
        if kind == "hitmiss":
            # outcomes only tell on which side of the detection threshold the signal is
            want = [int(sig[i - 1] > det) if i else -1 for i in doe]
            us = [int(sig[i - 1]) if i and w == int(v) else -77 for i, w, v in zip(doe, want, out)]
        else:
            us = [int(round(v)) for v in out]
        return [dict(base, op="doe", doe=doe, usig=us, study=kind)]
    grid = np.linspace(x[idx, 0].min(), x[idx, 0].max(), 7)
    kw = dict(sim=4, box=case["box"])
    ok1, o1 = call(lambda: S.run(S.build(kind, x, y, det, nt, st, **kw)))
    ok2, o2 = call(lambda: S.run(S.build(kind, x[idx], y[idx], det, None, None, **kw)))

    def ans(ok, o):
        if not ok:
            return []
        if kind == "qr":   # the bootstrap resamples before filtering: only the POD curve is common
            return S.values(o.getPODModel(), grid) + S.sizes_of(o, ((0.5, None), (0.8, None))) + [o.getR2(0.5)]
        return S.answers(o, grid)

    return [dict(base, op="study", kept=kept, gotok=ok1, refok=ok2, got=fxs(ans(ok1, o1)), ref=fxs(ans(ok2, o2)),
                 study=kind)]


def run(ctx):
    N = ctx.pick(4, 5)
    cases = ctx.cases("Censor", constants={"N": N, "Vals": "{0, 1, 2, 3}" if N == 5 else "{0, 1, 2, 3, 4}"},
                      invariants=["Partition", "Ordered", "Strict", "Declarative", "NoThreshold"], timeout=900)
    ctx.extra["filter_cases"] = len(cases)
    items = [(c["sig"], c["noise"], c["sat"], i % 3, (i // 3) % 3) for i, c in enumerate(cases)]
    chunks = [items[i:i + 400] for i in range(0, len(items), 400)]
    traces = ctx.replay(do_filter, chunks)

    # studies: thresholds equal to a signal (tie) or between two, on either or both sides
    reqs = []
    kinds = [("binomial", 1), ("gauss", 1), ("kernel", 1), ("qr", 1), ("chaos", 1), ("chaos", 2), ("chaos", 3),
             ("kriging", 2), ("kriging", 3), ("adaptive", 2), ("hitmiss", 2)]
    for kind, dim in kinds:
        for v in range(ctx.pick(1, 4)):
            x, sig = data_for(kind, dim, v)
            srt = sorted(sig.tolist())
            n = len(srt)
            lows = [NOTHR, srt[n // 5], srt[0]]
            highs = [NOTHR, srt[n - 1 - n // 5], srt[-1]]
            for a in lows:
                for b in highs:
                    for box in ((False, True) if kind in ("qr", "chaos", "gauss") else (False,)):
                        reqs.append({"kind": kind, "dim": dim, "v": v, "noise": a, "sat": b, "box": box,
                                     "det": srt[n // 2], "sig": sig.tolist()})
    # the specification says which points are kept
    kept = ctx.cases("CensorKept", files={"reqs.ndjson": "\n".join(
        json.dumps({"id": i, "sig": r["sig"], "noise": r["noise"], "sat": r["sat"]}) for i, r in enumerate(reqs)) + "\n"},
        workers=1)
    for k in kept:
        reqs[k["id"]]["kept"] = k["kept"]
    ctx.extra["study_cases"] = len(reqs)
    traces += ctx.replay(do_study, reqs, limit=200)
    for t in traces[-len(reqs):]:
        for e in t:
            ctx.extra["op_" + e["op"]] = ctx.extra.get("op_" + e["op"], 0) + 1
    ctx.sample(items[777])
    ctx.sample({k: reqs[7][k] for k in ("kind", "dim", "noise", "sat", "kept")})
    ctx.validate("CensorTrace", traces)
    # binding: a corrupted record must be rejected
    import copy

    bad = copy.deepcopy([traces[0][:3]])
    bad[0][1]["unc"] = bad[0][1]["unc"][:-1] if bad[0][1]["unc"] else [1]
    ctx.must_reject("CensorTrace", bad)
