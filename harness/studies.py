"""Small studies of every kind, driven through the public API only."""
import contextlib
import io
import os

import numpy as np
import openturns as ot

import otpod
from common import call

ot.Log.Show(ot.Log.NONE)

LIN = ("binomial", "gauss", "kernel")
META = ("chaos", "kriging")


SHIFT = int(os.environ.get("VERIF_SHIFT", "0"))   # development only: other random draws


def seed(k=0):
    k = int(k) + 100003 * SHIFT
    ot.RandomGenerator.SetSeed(int(k))
    np.random.seed(int(k) % (2**31))


LAWS = {"logistic": "LogisticFactory", "uniform": "UniformFactory", "laplace": "LaplaceFactory", "gumbel": "GumbelFactory",
        "truncnormal": "TruncatedNormalFactory", "lognormal": "LogNormalFactory"}


def factory(kind):
    if kind in LAWS:
        return getattr(ot, LAWS[kind])()
    return {"binomial": None, "gauss": ot.NormalFactory(), "kernel": ot.KernelSmoothing(),
            "weibull": ot.WeibullMinFactory()}[kind]


def build(kind, x, y, det, noise=None, sat=None, box=False, sim=None, sampling=None, sizes=None,
          quantiles=None, degree=None, start=0, model=None, more=0, cand=None, verbose=False, dist=None):
    if kind in ("binomial", "gauss", "kernel", "weibull") or kind in LAWS:
        o = otpod.UnivariateLinearModelPOD(x, y, det, noise, sat, factory(kind), box)
        o.setSimulationSize(30 if sim is None else sim)
    elif kind == "qr":
        o = otpod.QuantileRegressionPOD(x, y, det, noise, sat, box)
        o.setSimulationSize(8 if sim is None else sim)
        o.setQuantile([0.1, 0.5, 0.8, 0.9] if quantiles is None else quantiles)
    elif kind == "chaos":
        o = otpod.PolynomialChaosPOD(x, y, det, noise, sat, box)
        o.setSimulationSize(20 if sim is None else sim)
        o.setSamplingSize(200 if sampling is None else sampling)
        if degree is not None:
            o.setDegree(degree)
    elif kind == "kriging":
        o = otpod.KrigingPOD(x, y, det, noise, sat, box)
        o.setSimulationSize(15 if sim is None else sim)
        o.setSamplingSize(80 if sampling is None else sampling)
        o.setInitialStartSize(start)
    elif kind == "adaptive":
        o = otpod.AdaptiveSignalPOD(x, y, model, more, det, noise, sat, box)
        o.setSimulationSize(8 if sim is None else sim)
        o.setSamplingSize(30 if sampling is None else sampling)
        o.setInitialStartSize(start)
        o.setCandidateSize(6 if cand is None else cand)
    elif kind == "hitmiss":
        o = otpod.AdaptiveHitMissPOD(x, y, model, more, det, noise, sat)
        o.setSamplingSize(60 if sampling is None else sampling)
        o.setCandidateSize(60 if cand is None else cand)
        o.setClassifierParameters([[10], [None], [2], [0]])
    else:
        raise ValueError(kind)
    if sizes is not None:
        o.setDefectSizes(sizes)
    if dist is not None:
        o.setDistribution(dist)
    o.setVerbose(verbose)
    return o


def run(o, k=7):
    seed(k)
    with contextlib.redirect_stdout(io.StringIO()):
        o.run()
    return o


NANV = float("nan")


def values(f, grid):
    out = []
    for a in grid:
        ok, v = call(lambda: float(f([float(a)])[0]))
        out.append(v if ok else NANV)
    return out


def sizes_of(o, levels=((0.5, None), (0.9, None), (0.9, 0.95), (0.5, 0.8))):
    out = []
    for p, c in levels:
        ok, v = call(lambda: list(o.computeDetectionSize(p) if c is None else o.computeDetectionSize(p, c)))
        n = 1 if c is None else 2
        out += [float(t) for t in v] if ok else [NANV] * n
    return out


def answers(o, grid, cls=(0.8, 0.95), levels=None, extra=True):
    """Everything a user can read from a study that has run, as a list of floats."""
    out = values(o.getPODModel(), grid)
    for c in cls:
        ok, f = call(o.getPODCLModel, c)
        out += values(f, grid) if ok else [NANV] * len(grid)
    out += sizes_of(o) if levels is None else sizes_of(o, levels)
    if extra:
        for name, args in (("getR2", (0.5,) if isinstance(o, otpod.QuantileRegressionPOD) else ()), ("getQ2", ())):
            if hasattr(o, name):
                ok, v = call(getattr(o, name), *args)
                out.append(float(v) if ok else NANV)
        ok, v = call(o.getBoxCoxParameter)
        out.append(float(v) if ok and v is not None else NANV)
    return out


def line_data(n=30, s=1, noise=3.0, lo=0.1, hi=0.8):
    r = np.random.RandomState(s)
    x = np.round(r.uniform(lo, hi, n), 4)
    y = 5.0 + 45.0 * x + noise * r.randn(n)
    return x, np.round(y, 4)


def surf(x):
    x = np.atleast_2d(x)
    v = 4.0 + 40.0 * x[:, 0]
    if x.shape[1] > 1:
        v = v + 6.0 * x[:, 1] + 3.0 * x[:, 0] * x[:, 1]
    if x.shape[1] > 2:
        v = v + 4.0 * x[:, 2] ** 2 - 2.0 * x[:, 1] * x[:, 2]
    return v


def falling(x):
    """signals that decrease with the first input"""
    x = np.array(np.atleast_2d(x), float)
    x[:, 0] = 0.9 - x[:, 0]
    return surf(x)


def hump(x):
    """signals that increase, then decrease with the first input"""
    x = np.array(np.atleast_2d(x), float)
    u = (x[:, 0] - 0.1) / 0.7
    x[:, 0] = 0.1 + 2.4 * u * (1 - u)
    return surf(x)


def shape(s):
    return (surf, falling, hump)[(s + s // 3) % 3]


def surf_data(n=40, dim=2, s=3, noise=0.5, f=surf):
    r = np.random.RandomState(s)
    x = np.empty((n, dim))
    x[:, 0] = r.uniform(0.1, 0.8, n)
    if dim > 1:
        x[:, 1:] = r.uniform(-1.0, 1.0, (n, dim - 1))
    x = np.round(x, 4)
    y = f(x) + noise * r.randn(n)
    return x, np.round(y, 4)
