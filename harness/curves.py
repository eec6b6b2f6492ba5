"""Exact POD curves through a hit/miss study: the classifier can only answer the rates of the design."""
import numpy as np
import openturns as ot

import otpod
import studies as S
from common import call, fx, fxs

UNIT = 0.1          # size of one knot unit
W = (70, 30)        # weights of the two configurations
CONF = {95: 1, 50: 0, 5: 2}   # confidence level -> order statistic (0: the first configuration)


def exact(v, K, knots, sims, n=400, seed=3):
    """a study whose predicted probability at knot k, configuration s is v[k][s] / K"""
    x, y = [], []
    for k, a in enumerate(knots):
        for s in range(sims):
            for j in range(K):
                x.append([a * UNIT, float(s)])
                y.append([1.0 if j < v[k][s] else 0.0])
    # both classes are present whatever the rates: a configuration of probability zero
    for a in (knots[0], knots[-1]):
        for z in (0.0, 1.0):
            x.append([a * UNIT, 9.0])
            y.append([z])
    o = otpod.AdaptiveHitMissPOD(x, y)
    o.setVerbose(False)
    o.setClassifierParameters([[4], [None], [2], [0]])
    o.setCandidateSize(4)
    o.setSamplingSize(n)
    o.setDefectSizes([a * UNIT for a in knots])
    second = ot.UserDefined([[float(s)] for s in range(sims)], [w / 100.0 for w in W[:sims]] if sims == 2 else [1.0])
    o.setDistribution(ot.JointDistribution([ot.Uniform(knots[0] * UNIT, knots[-1] * UNIT), second]))
    S.seed(seed)
    o.run()
    return o


def by_conf(v, c):
    k = CONF[c]
    return [t[0] if k == 0 else sorted(t)[k - 1] for t in v]


def quarters(f, knots):
    out = []
    for a, b in zip(knots, knots[1:]):
        out.append(fxs(S.values(f, [min(max((a + (b - a) * q / 4.0) * UNIT, knots[0] * UNIT), knots[-1] * UNIT) for q in range(5)])))
    return out
