"""Independent reference for the linear studies (numpy / scipy only)."""
import math

import numpy as np
from scipy import optimize, stats


def ols(x, y):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    xm, ym = x.mean(), y.mean()
    b1 = ((x - xm) * (y - ym)).sum() / ((x - xm) ** 2).sum()
    b0 = ym - b1 * xm
    res = y - b0 - b1 * x
    return b0, b1, math.sqrt((res**2).sum() / (len(x) - 2)), res


def split(x, y, noise, sat):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    n = np.zeros(len(y), bool) if noise is None else y <= noise
    s = np.zeros(len(y), bool) if sat is None else y >= sat
    k = ~n & ~s
    return x[k], y[k], x[n], x[s]


def negloglik(p, xu, yu, xn, xs, noise, sat):
    b0, b1, s = p
    if s <= 0:
        return 1e12
    v = len(xu) * math.log(s * math.sqrt(2 * math.pi)) + ((yu - b0 - b1 * xu) ** 2).sum() / (2 * s * s)
    if len(xn):
        v -= stats.norm.logcdf((noise - b0 - b1 * xn) / s).sum()
    if len(xs):
        v -= stats.norm.logsf((sat - b0 - b1 * xs) / s).sum()
    return v


def fit(x, y, noise=None, sat=None):
    """dict with the line used by the study; x, y, thresholds already on the working scale."""
    xu, yu, xn, xs = split(x, y, noise, sat)
    b0, b1, s, res = ols(xu, yu)
    if noise is not None or sat is not None:
        f = lambda p: negloglik(p, xu, yu, xn, xs, noise, sat)
        r = optimize.minimize(f, [b0, b1, s], method="Nelder-Mead",
                              options={"xatol": 1e-9, "fatol": 1e-11, "maxiter": 20000, "maxfev": 20000})
        r = optimize.minimize(f, r.x, method="Nelder-Mead",
                              options={"xatol": 1e-10, "fatol": 1e-12, "maxiter": 20000, "maxfev": 20000})
        b0, b1, s = r.x
        res = yu - b0 - b1 * xu
    return {"b0": b0, "b1": b1, "s": s, "res": res, "x": xu, "y": yu, "xn": xn, "xs": xs}


def lever(x, a):
    x = np.asarray(x, float)
    X = np.c_[np.ones(len(x)), x]
    G = np.linalg.inv(X.T @ X)
    v = np.array([1.0, a])
    return float(v @ G @ v)


def pod_gauss(f, det, a):
    t = (det - f["b0"] - f["b1"] * a) / (f["s"] * math.sqrt(1 + lever(f["x"], a)))
    return float(stats.norm.sf(t))


def pod_binomial(f, det, a):
    return float(np.mean(f["res"] > det - f["b0"] - f["b1"] * a))


def pod_law(f, det, a, factory):
    import openturns as ot

    law = factory.build(ot.Sample(f["res"].reshape(-1, 1)))
    return law.computeComplementaryCDF(det - f["b0"] - f["b1"] * a)


def r2(f):
    return 1 - np.var(f["res"]) / np.var(f["y"])


def beta_bound(n, r, c):
    return c ** (1.0 / n) if r == n else 1.0 - float(stats.beta.ppf(c, n - r, r + 1))


def boxcox(v, lam):
    v = np.asarray(v, float)
    return np.log(v) if abs(lam) < 1e-12 else (v**lam - 1) / lam
