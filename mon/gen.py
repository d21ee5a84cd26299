"""Workload generation: parameter sets and query points for every family.

Every family gets (1) a fixed list of deliberately awkward parameter sets (unit
shapes, ties, boundaries between the regimes of the numerical algorithms, very
large and very small scales) and (2) random ones drawn log-uniformly.
"""
import math, os, re
import numpy as np
from fractions import Fraction
from vlib import REPO

CONT = ["beta", "cauchy", "exponential", "gamma", "gaussian", "laplace", "logistic", "lognormal",
        "pert", "triangular", "uniform"]
DISC = ["bernoulli", "bernoulli_f", "binomial", "binomial_f", "categorical"]
INV = [f for f in CONT if f != "gamma"] + DISC
MOMENTS = [f for f in CONT if f != "cauchy"] + DISC
LOCSCALE = ["cauchy", "gaussian", "laplace", "logistic"]

INF = float("inf")
EPS = 2.0 ** -52


def lu(rng, a, b, n=None):
    """Log-uniform."""
    return np.exp(rng.uniform(np.log(a), np.log(b), n))


def _loc(rng):
    u = rng.random()
    if u < 0.25:
        return 0.0
    if u < 0.5:
        return float(rng.integers(-20, 21))
    return float(rng.choice([-1, 1]) * lu(rng, 1e-3, 1e6))


def _interval(rng):
    """Endpoints a < b; the offset is at most about 1e4 times the width."""
    u = rng.random()
    if u < 0.2:
        return 0.0, 1.0
    if u < 0.35:
        return float(rng.integers(-9, 0)), float(rng.integers(1, 9))
    w = float(lu(rng, 1e-6, 1e8))
    off = rng.choice([-1, 1]) * lu(rng, 1e-4, 1e3) * w * rng.choice([0, 1, 1])
    return float(off), float(off) + w


def shapes(rng, lo=0.05, hi=1e3, ratio=1e4):
    while True:
        v = []
        for _ in range(2):
            u = rng.random()
            if u < 0.25:
                v.append(float(rng.choice([0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 10.0])))
            elif u < 0.6:
                v.append(float(lu(rng, 0.3, 20)))
            else:
                v.append(float(lu(rng, lo, hi)))
        if max(v) / min(v) <= ratio:
            return v[0], v[1]


def probability_vector(rng):
    """Categorical parameters: zeros in any place, ties, tiny and rounded entries."""
    kind = rng.integers(0, 8)
    k = int(rng.choice([1, 2, 3, 4, 5, 7, 10, 16, 33, 100], p=[.04, .12, .14, .14, .12, .12, .12, .1, .06, .04]))
    if kind == 0:
        p = np.full(k, 1.0 / k)
    elif kind == 1:
        w = rng.integers(0, 4, k).astype(float)
        if w.sum() == 0:
            w[rng.integers(0, k)] = 1
        p = w / w.sum()
    elif kind == 2:
        w = lu(rng, 1e-12, 1, k)
        p = w / w.sum()
    elif kind == 3:
        p = np.zeros(k)
        p[rng.integers(0, k)] = 1.0
    elif kind == 4:  # dyadic: every partial sum is exact
        w = np.zeros(k)
        for _ in range(64):
            w[rng.integers(0, k)] += 1
        p = w / 64
    elif kind == 5:  # zeros around
        w = rng.random(k)
        a, b = sorted(rng.integers(0, k + 1, 2))
        w[:a] = 0
        if b > a:
            w[b:] = 0
        if w.sum() == 0:
            w[rng.integers(0, k)] = 1
        p = w / w.sum()
    elif kind == 6:
        w = rng.random(k) * (rng.random(k) < 0.5)
        if w.sum() == 0:
            w[rng.integers(0, k)] = 1
        p = w / w.sum()
    else:
        w = rng.dirichlet(np.ones(k))
        p = w / w.sum()
    return [float(x) for x in p]


FIXED_CATEGORICAL = [
    [1.0], [0.5, 0.5], [0.25, 0.25, 0.25, 0.25], [0.0, 1.0], [1.0, 0.0], [0.0, 0.0, 1.0],
    [0.0, 0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.1] * 10, [0.1] * 10 + [0.0], [0.0] + [0.1] * 10,
    [0.2, 0.0, 0.3, 0.0, 0.5], [1.0 / 3] * 3, [1.0 / 6, 1.0 / 3, 1.0 / 3, 1.0 / 6],
    [0.25, 0.25, 0.5], [0.5, 0.25, 0.25], [0.125] * 8, [0.25, 0.0, 0.25, 0.5],
    [1e-13, 1 - 1e-13], [1 - 1e-13, 1e-13], [0.3, 0.3, 0.4], [0.7, 0.1, 0.2], [0.01] * 100,
    [0.0, 0.0, 0.0, 0.25, 0.75], [0.05] * 20 + [0.0, 0.0], [1.0 / 7] * 7, [1.0 / 49] * 49,
    [0.6, 0.3, 0.1], [0.15, 0.35, 0.35, 0.15], [0.0, 0.2, 0.2, 0.2, 0.2, 0.2],
]


def binomial_params(rng, failure=False, big=True):
    u = rng.random()
    n = int(lu(rng, 1, 60)) if u < .3 else int(lu(rng, 20, 1500)) if u < .6 else \
        int(lu(rng, 900, 20000)) if u < .85 else int(lu(rng, 1e4, 3e7 if big else 2e5))
    u = rng.random()
    if u < .35:
        p = rng.random()
    elif u < .5:
        p = float(rng.choice([.5, .25, .75, .1, .9, .125, 1 / 3, .05, .95]))
    elif u < .65:
        p = float(lu(rng, 1e-9, .5))
    elif u < .75:
        p = 1 - float(lu(rng, 1e-9, .5))
    elif u < .85:  # a mean of order one to a hundred
        p = min(0.999, float(lu(rng, .05, 150)) / n)
    elif u < .92:  # an integer mean, up to rounding
        p = float(rng.integers(1, n + 1)) / (n + 1)
    else:  # a variance around the switch at 80
        v = 80 * rng.uniform(.9, 1.1) / n
        p = .5 * (1 - np.sqrt(1 - 4 * v)) if v < .25 else rng.random()
        if rng.random() < .5:
            p = 1 - p
    p = float(p)
    if not 0 < p < 1:
        p = 0.5
    return (float(n), p)


FIXED_BINOMIAL = [(float(n), p) for n in (1, 2, 3, 7, 10, 11, 12, 15, 16, 17, 20, 22, 30, 31, 35, 36,
                                         50, 80, 81, 100, 161, 250, 499, 500, 501, 998, 999, 1000, 1001, 1002,
                                         2000, 5000, 9999, 10000, 10001, 20000, 65536, 100000, 1000003)
                  for p in (0.5, 0.25, 1e-3, 0.05, 0.999, 0.3, 0.8)] + [
    (1e6, 2.5e-5), (1e9, 6.66e-9), (1024.0, 0.009765625), (3666.0, 0.9810204628647335), (1043.0, 0.99968),
    (1060.0, 0.9999967), (999.0, 0.53), (4294967296.0, 1e-9), (4294967297.0, 0.25), (2147483648.0, 0.5),
    (5e9, 1e-9), (1e10, 0.75), (2.0, 0.28), (172.0, 0.9152), (375.0, .1108), (29807.0, .956),
    (3297990.0, .99999768), (1.0, 1e-300), (40.0, 1e-12), (1000.0, 1e-12), (10 ** 7 + 0.0, 1e-12),
    (4e7, 0.3), (6e8, 0.1), (3e9, 0.6), (1e12, 0.2), (1e11, 3e-10), (123456789., .5),
] + [(float(n + k), p) for n in (8, 32, 64, 128, 256, 512, 1024, 4096) for k in (-1, 0, 1) for p in (.5, .15)]
EDGE_BINOMIAL = [(float(n), p) for n in (0, 1, 2, 5, 40, 999, 1000, 5000) for p in (0.0, 1.0)] + \
    [(0.0, 0.5), (0.0, 0.1)]

FIXED = {
    "bernoulli": [(p,) for p in (0.5, 0.25, 0.75, 1 / 3, 0.1, 0.9, 1e-3, 1e-9, 1e-17, 1e-300, 1 - 1e-9,
                                 1 - 2.0 ** -53, 0.5 + 2.0 ** -52, 0.5 - 2.0 ** -54)],
    "bernoulli_f": [(p,) for p in (0.5, 0.25, 0.75, 0.1, 0.9, 1e-3, 1e-9, 1e-17, 1e-20, 1e-100, 1e-300, 1 - 1e-9,
                                   0.5 + 2.0 ** -52)],
    "beta": [(al, be, a, b) for al, be in ((1., 1.), (1., 2.), (2., 1.), (1., .5), (.5, 1.), (.5, .5), (2., 2.),
                                           (2., 5.), (5., 2.), (1., 5.), (5., 1.), (.1, .1), (.1, 3.), (3., .1), (1.5, 1.5),
                                           (10., 10.), (100., 3.), (3., 100.), (300., 500.), (1000., 1000.), (.05, .05),
                                           (1. + 1e-9, 1. + 1e-9), (1. - 1e-9, 2.), (.05, 20.), (1.01, 30.), (1.1, 1.2))
             for a, b in ((0., 1.), (-1., 2.), (3., 5.))] + [(2., 3., -7e5, -6e5), (2., 3., 1e-30, 3e-30),
                                                             (.5, 3., -1e50, 1e50), (4., 2., 1e6, 1e6 + 1000)],
    "binomial": FIXED_BINOMIAL,
    "binomial_f": [(n, 1 - p) for n, p in FIXED_BINOMIAL[::5]] + [(50.0, 1e-20), (1e5, 1e-20), (900.0, 1e-18),
                                                                  (1e6, 1e-12), (2000.0, 1e-17), (10.0, 1e-100), (5e9, 1e-11)],
    "categorical": FIXED_CATEGORICAL,
    "cauchy": [(0., 1.), (2., 8.), (-3., .5), (0., 1e-100), (0., 1e100), (1e6, 1e-3), (-1e9, 1.)],
    "exponential": [(1.,), (2.,), (.5,), (1e-100,), (1e100,), (1e-3,), (7.,), (1e9,)],
    "gamma": [(k, t) for k in (1., 2., .5, 9., 1.5, .1, .9, 1.1, 3., 10., 30., 100., 170., 171., 172., 200., 1e3, 1e4, 1e5, 1e6, 3e6, 1e7,
                               .05, .01, 1 - 2. ** -53, 1 + 2. ** -52) for t in (1., 2., .5)] +
             [(2., 1e-100), (2., 1e100), (9., .01), (150., 300.), (50., 1e10), (0.3, 1e-50)],
    "gaussian": [(0., 1.), (1., 2.), (-4., .25), (0., 1e-100), (0., 1e100), (1e6, 1e-3), (-1e9, 1.), (1e9, 1e-6)],
    "laplace": [(0., 1.), (2., 8.), (-3., .5), (0., 1e-100), (0., 1e100), (1e6, 1e-3), (-1e9, 1.)],
    "logistic": [(0., 1.), (5., 2.), (-3., .5), (0., 1e-100), (0., 1e100), (1e6, 1e-3), (-1e9, 1.)],
    "lognormal": [(0., 1.), (1., .25), (-2., 3.), (0., 1e-6), (0., 1e-3), (100., 1.), (-100., 2.), (300., .5),
                  (5., 10.), (0., .1), (1., 1e-8), (600., .1), (0., 3.)],
    "pert": [(0., .5, 1.), (-1., .5, 2.), (0., 1e-6, 1.), (0., 1 - 1e-6, 1.), (10., 12., 20.), (-1e6, 0., 3e6),
             (-5., -4., -1.), (1e-30, 2e-30, 4e-30), (-1e50, 1e49, 1e50), (100., 101., 110.), (0., .9, 1.), (0., .1, 1.),
             (0., .01, 1.), (0., .99, 1.)],
    "triangular": [(0., 1., .5), (0., 1., 0.), (0., 1., 1.), (1., 5., 3.), (-1., 1., 0.), (2., 3., 2.), (2., 3., 3.),
                   (0., 1., 1e-9), (0., 1., 1 - 1e-9), (-3., 9., 7.), (0., 10., 1.), (1e6, 1e6 + 1, 1e6 + .25), (1e8, 1e8 + 1, 1e8 + .5),
                   (-1e8, -1e8 + 8, -1e8 + 1), (1e-30, 3e-30, 2e-30), (-1e50, 1e50, 3e49), (0., 3., 1.), (0., 1., .25), (1e9, 1e9 + 2, 1e9)],
    "uniform": [(0., 1.), (-1., 1.), (2., 8.), (-7., -3.), (1e6, 1e6 + 1), (-1e100, 1e100), (0., 1e-100), (1e9, 1e9 + 1e-3)],
}


def random_params(fam, rng):
    if fam in ("bernoulli", "bernoulli_f"):
        return (float(rng.choice([rng.random(), lu(rng, 1e-15, .5), 1 - lu(rng, 1e-15, .5)])),)
    if fam == "beta":
        return shapes(rng) + _interval(rng)
    if fam in ("binomial", "binomial_f"):
        return binomial_params(rng)
    if fam == "categorical":
        return tuple(probability_vector(rng))
    if fam in ("cauchy", "gaussian", "laplace", "logistic"):
        return (_loc(rng), float(lu(rng, 1e-4, 1e4)))
    if fam == "exponential":
        return (float(lu(rng, 1e-6, 1e6)),)
    if fam == "gamma":
        return (float(rng.choice([lu(rng, .02, 1), lu(rng, 1, 30), lu(rng, 1, 1e4)])), float(lu(rng, 1e-5, 1e5)))
    if fam == "lognormal":
        return (float(rng.uniform(-20, 20)), float(lu(rng, 1e-3, 4)))
    if fam == "pert":
        a, c = _interval(rng)
        while True:
            t = float(rng.choice([rng.random(), lu(rng, 1e-4, .5), 1 - lu(rng, 1e-4, .5)]))
            b = a + (c - a) * t
            if a < b < c:
                return (a, b, c)
    if fam == "triangular":
        a, b = _interval(rng)
        c = float(rng.choice([a, b, a + (b - a) * rng.random(), a + (b - a) * lu(rng, 1e-6, .5),
                              b - (b - a) * lu(rng, 1e-6, .5)]))
        return (a, b, min(max(a, c), b))
    if fam == "uniform":
        return _interval(rng)
    raise KeyError(fam)


def near(rng, x):
    """x, or something next to it: ulps or a relative amount away."""
    u = rng.random()
    if u < .3:
        return float(x)
    s = rng.choice([-1, 1])
    if u < .6:
        k = int(rng.choice([1, 2, 3, 8, 64]))
        for _ in range(k):
            x = np.nextafter(x, s * INF)
        return float(x)
    return float(x * (1 + s * lu(rng, 1e-15, 1e-3)))


def wide_params(fam, rng):
    """Valid parameters far from the ordinary: scales over the whole exponent
    range in which squares neither overflow nor underflow, huge and tiny shapes,
    near ties, almost degenerate sets."""
    def scale():
        return float(lu(rng, 1e-140, 1e140)) if rng.random() < .5 else float(lu(rng, 1e-20, 1e20))

    def loc(s):
        u = rng.random()
        return 0.0 if u < .3 else float(rng.choice([-1, 1]) * lu(rng, 1e-6, 1e10) * s) if u < .8 else \
            float(rng.choice([-1, 1]) * lu(rng, 1e-12, 1e12))

    def interval():
        while True:
            w = scale()
            a = float(rng.choice([0., 0., rng.choice([-1, 1]) * lu(rng, 1e-6, 1e9) * w, -w * rng.random()]))
            if a + w > a:
                return a, a + w
    if fam in ("bernoulli", "bernoulli_f"):
        p = float(rng.choice([lu(rng, 1e-300, 1), 1 - lu(rng, 1e-16, .5), near(rng, .5), near(rng, .25), near(rng, 1 / 3)]))
        return (p if 0 < p < 1 else .5,)
    if fam == "beta":
        def shape():
            return float(rng.choice([lu(rng, 2e-2, 1), lu(rng, 1, 1e6), lu(rng, 1, 50), near(rng, 1.0), near(rng, 2.0), float(rng.integers(1, 9))]))
        if rng.random() < .25:  # both large, or both small
            r = (1e2, 1e6) if rng.random() < .7 else (2e-2, 1)
            al, be = float(lu(rng, *r)), float(lu(rng, *r))
        else:
            al = shape()
            be = near(rng, al) if rng.random() < .25 else shape()
        return (al, be) + (interval() if rng.random() < .5 else _interval(rng))
    if fam in ("binomial", "binomial_f"):
        u = rng.random()
        n = float(np.floor(lu(rng, 1e6, 1e12) if u < .4 else lu(rng, 1, 300) if u < .7 else lu(rng, 300, 1e6)))
        u = rng.random()
        if u < .3:  # a mean, or mode, next to an integer or a half
            t = rng.integers(0, int(min(2 * n, 2 ** 40)) + 1) / 2
            p = near(rng, t / (n + rng.integers(0, 2)))
        elif u < .5:
            p = float(lu(rng, 1e-300, 1))
        elif u < .65:
            p = 1 - float(lu(rng, 1e-16, 1))
        elif u < .75:
            p = near(rng, .5)
        elif u < .9:
            p = min(1.0, float(lu(rng, .01, 1000)) / n)
        else:
            p = 1 - min(1.0, float(lu(rng, .01, 1000)) / n)
        return (n, float(p) if 0 < p < 1 else .5)
    if fam == "categorical":
        u = rng.random()
        if u < .25:  # near ties
            p = probability_vector(rng)
            p = [near(rng, x) if x > 0 else x for x in p]
        elif u < .4:  # many categories
            k = int(lu(rng, 100, 5000))
            w = rng.random(k) ** float(rng.choice([0, 1, 8])) * (rng.random(k) < rng.choice([.1, 1.0]))
            w[rng.integers(0, k)] += .1
            p = [float(x) for x in w / w.sum()]
        elif u < .6:  # nearly all on one outcome
            k = int(rng.integers(2, 40) if rng.random() < .6 else lu(rng, 40, 4000))
            p = [float(x) for x in lu(rng, 1e-18, 1e-9, k) * (rng.random(k) < (.5 if rng.random() < .5 else 2 / k))]
            i = int(rng.integers(0, k))
            p[i] = 0.0
            p[i] = 1 - float(sum(p))
        elif u < .8:  # two or three dominating outcomes next to a tie
            k = int(rng.integers(2, 9) if rng.random() < .7 else lu(rng, 9, 1000))
            p = [0.0] * k
            idx = rng.permutation(k)[:int(rng.choice([2, 2, 3]))] if k > 2 else np.array([0, 1])
            for i in idx:
                p[i] = near(rng, 1.0 / len(idx))
            if sum(p) > 1:
                p[idx[0]] -= sum(p) - 1
        else:
            k = int(rng.integers(2, 30))
            w = lu(rng, 1e-300, 1, k)
            p = [float(x) for x in w / w.sum()]
        p = [min(x, 1.0) for x in p]
        if abs(math.fsum(p) - 1) > 5e-13 or abs(float(sum(p)) - 1) > 5e-13:
            p[int(np.argmax(p))] += 1 - math.fsum(p)
        if abs(float(sum(p)) - 1) > 5e-13 or min(p) < 0 or max(p) > 1:
            return wide_params(fam, rng)
        return tuple(float(x) for x in p)
    if fam in ("cauchy", "gaussian", "laplace", "logistic"):
        s = scale()
        return (loc(s), s)
    if fam == "exponential":
        return (float(lu(rng, 1e-140, 1e140)),)
    if fam == "gamma":
        k = float(rng.choice([lu(rng, 1e-3, 1), lu(rng, 1, 1e7), lu(rng, 1, 50), near(rng, 1.0), near(rng, 2.0)]))
        return (k, scale() if rng.random() < .7 else float(lu(rng, 1e-3, 1e3)))
    if fam == "lognormal":
        return (float(rng.uniform(-150, 150)), float(rng.choice([lu(rng, 1e-12, 1e-2), lu(rng, 1e-2, 10)])))
    a, c = interval()
    if fam == "uniform":
        return (a, c)
    t = float(rng.choice([rng.random(), lu(rng, 1e-12, .5), 1 - lu(rng, 1e-12, .5), near(rng, .5)]))
    m = a + (c - a) * t
    if fam == "triangular":
        m = float(rng.choice([m, m, m, np.nextafter(a, INF), np.nextafter(c, -INF)]))
        return (a, c, min(max(m, a), c))
    return (a, m, c) if a < m < c else wide_params(fam, rng)


_LITERALS = {}
_NUMBER = re.compile(r"(?<![A-Za-z_0-9.])\d[\d_]*(?:\.(?!\.)[\d_]*)?(?:[eE][-+]?\d+)?")


def literals(fam):
    """Numbers written in the non-test part of a family's source, the ones on lines
    with a comparison first. They steer the workload only, as the dictionary of a
    fuzzer does: an algorithm switches its branches at such numbers."""
    name = fam[:-2] if fam.endswith("_f") else fam
    if name not in _LITERALS:
        first, rest = [], []
        try:
            text = open(os.path.join(REPO, "src/distribution", name + ".rs"), encoding="utf-8").read()
        except OSError:
            text = ""
        for line in text.split("#[cfg(test)]")[0].splitlines():
            code = line.split("//")[0]
            found = [float(t.replace("_", "")) for t in _NUMBER.findall(code)]
            if len(found) < 4:  # longer lines belong to tables
                decides = re.search(r"[<>]|[=!]=|\bif\b|\bmatch\b|\bconst\b|\bmin\b|\bmax\b|\.\.|=>", code)
                (first if decides else rest).extend(found)
        keep = [v for v in dict.fromkeys(first + rest) if v not in (0.0, 1.0) and math.isfinite(v)]
        _LITERALS[name] = (keep + [1.0])[:60]
    return _LITERALS[name]


def literal(fam, rng):
    """A number from the source or one related to it."""
    v = literals(fam)
    # Numbers on deciding lines come first, and are taken more often.
    v = v[min(int(rng.random() ** 2 * len(v)), len(v) - 1)]
    u = rng.random()
    if u < .1:
        v = 1 / v if v else v
    elif u < .2 and v < 1:
        v = 1 - v
    elif u < .25:
        v = math.sqrt(v)
    u = rng.random()
    if u < .25:
        return v
    if u < .5:
        return near(rng, v)
    return float(v * np.exp(rng.uniform(-.7, .7)))


def steered_params(fam, rng):
    """Random parameters, one of them, or a combination the algorithms look at,
    taken from the numbers in the source."""
    p = list(wide_params(fam, rng) if rng.random() < .3 else random_params(fam, rng))
    v = literal(fam, rng)
    i = int(rng.integers(0, len(p)))
    if fam in ("bernoulli", "bernoulli_f"):
        p = [v]
    elif fam in ("binomial", "binomial_f"):
        n, q = p
        kind = rng.integers(0, 5)
        if kind == 0:
            n = float(np.floor(v))
        elif kind == 1:
            q = v
        elif kind == 2:
            q = v / n if n else q
        elif kind == 3:
            q = 1 - v / n if n else q
        elif n and v / n < .25:
            q = .5 * (1 - math.sqrt(1 - 4 * v / n))
            q = 1 - q if rng.random() < .5 else q
        p = [n, q]
    elif fam == "categorical":
        if rng.random() < .5 and 2 <= v <= 5000:
            w = rng.random(int(v))
            p = [float(x) for x in w / w.sum()]
        elif len(p) > 1 and 0 <= v < 1 and sum(p) > p[i]:
            f = (1 - v) / (math.fsum(p) - p[i])
            p = [v if j == i else min(x * f, 1.0) for j, x in enumerate(p)]
        if abs(float(sum(p)) - 1) > 5e-13 or abs(math.fsum(p) - 1) > 5e-13:
            return random_params(fam, rng)
        return tuple(p)
    elif fam in LOCSCALE:
        p = [v, p[1]] if i == 0 else [p[0], v] if rng.random() < .5 else [p[1] * v, p[1]]
        p[0] *= rng.choice([-1, 1])
    elif fam == "beta":
        if i < 2:
            p[i] = v
        else:
            p[3] = p[2] + v
    elif fam in ("exponential", "gamma", "lognormal"):
        p[i] = v
    elif fam == "uniform":
        p = [p[0], p[0] + v]
    elif fam == "triangular":
        p = [p[0], p[1], p[0] + v * (p[1] - p[0])] if i else [p[0], p[0] + v, p[0] + rng.random() * v]
    elif fam == "pert":
        p = [p[0], p[0] + v * (p[2] - p[0]), p[2]] if i else [p[0], p[0] + rng.random() * v, p[0] + v]
    return tuple(float(x) for x in p) if _covered(fam, p) else random_params(fam, rng)


def _covered(fam, p):
    """Whether the parameters lie where wide_params() may put them."""
    if fam in ("bernoulli", "bernoulli_f"):
        return 1e-300 <= p[0] < 1
    if fam in ("binomial", "binomial_f"):
        return 1 <= p[0] <= 1e12 and 1e-300 <= p[1] < 1
    if fam == "gamma":
        return 1e-3 <= p[0] <= 1e7 and 1e-140 <= p[1] <= 1e140
    if fam == "lognormal":
        return -150 <= p[0] <= 150 and 1e-12 <= p[1] <= 10
    if fam == "exponential":
        return 1e-140 <= p[0] <= 1e140
    if fam in LOCSCALE:
        return 1e-140 <= p[1] <= 1e140 and abs(p[0]) <= max(1e10 * p[1], 1e12)
    if fam == "beta" and not (2e-2 <= p[0] <= 1e6 and 2e-2 <= p[1] <= 1e6):
        return False
    a, c = (p[2], p[3]) if fam == "beta" else (p[0], p[2]) if fam == "pert" else (p[0], p[1])
    if not (a < c and 1e-140 <= c - a <= 1e140 and abs(a) <= 1e9 * (c - a)):
        return False
    if fam == "pert":
        return a < p[1] < c
    return fam != "triangular" or a <= p[2] <= c


STEERED = float(os.environ.get("VMON_STEERED", "0.2"))
WIDE = float(os.environ.get("VMON_WIDE", "0.4"))


def params(fam, rng, n, wide=None):
    """The fixed list followed by n random ones, a share of them far from the ordinary."""
    w = WIDE if wide is None else wide
    out = [tuple(float(x) for x in p) for p in FIXED[fam]]
    for _ in range(n):
        u = rng.random()
        out.append(steered_params(fam, rng) if u < STEERED else wide_params(fam, rng)
                   if (u - STEERED) / (1 - STEERED) < w else random_params(fam, rng))
    return list(dict.fromkeys(out))


def probabilities(rng, n=16, extreme=True, fam=None):
    """Points of the unit interval: the bulk, both tails, and special values."""
    p = [rng.random(n), [0.5, 0.25, 0.75, 0.1, 0.9, 1 / 3, 2 / 3, .075, .925, np.nextafter(.075, 0), np.nextafter(.925, 1),
                         0.5 + EPS, 0.5 - EPS, 0.01, 0.99, 1e-3, .999],
         lu(rng, 1e-12, .1, n // 2), 1 - lu(rng, 1e-12, .1, n // 2)]
    if extreme:
        p += [[1.3887943864964021e-11, 1 - 1.3887943864964021e-11, 1e-15, 1 - 2.0 ** -53, 1e-11, 1.4e-11],
              lu(rng, 1e-300, 1e-12, n // 3), [5e-324, 1e-320, 3e-309, 2.0 ** -1022]]
    if fam:
        v = np.array([literal(fam, rng) for _ in range(6)])
        v = v[(v > (5e-324 if extreme else 1e-12)) & (v < 1)]
        p.append(np.where(rng.random(len(v)) < .8, v, 1 - v))
    p = np.unique(np.concatenate([np.asarray(x, dtype=float) for x in p]))
    return p[(p > 0) & (p < 1)]
