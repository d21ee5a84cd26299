"""Monitors for the summary statistics: every distribution object is asked for its
statistics, which are compared with closed forms evaluated at 50 digits."""
import math
from fractions import Fraction
import numpy as np
import mpmath as mp
import gen, ref
from gen import CONT, DISC, MOMENTS, INF, EPS
from numeric import model, acdf, PARAM_RULE, ASSUME, k1_factor
from vlib import Batch, OK

M = mp.mpf
MAX = M(2) ** 1024


def _m(p):
    mp.mp.dps = 50
    return [M(float(v)) for v in p]


def pq(fam, p):
    a = M(float(p[-1]))
    return (1 - a, a) if fam.endswith("_f") else (a, 1 - a)


def shapes_of(fam, m):
    """(alpha, beta, a, b) of a Beta or Pert distribution."""
    if fam == "beta":
        return m
    a, b, c = m
    return 1 + 4 * (b - a) / (c - a), 1 + 4 * (c - b) / (c - a), a, c


def central(p):
    """Mean and central moments of a categorical distribution."""
    v = _m(p)
    mean = mp.fsum(i * x for i, x in enumerate(v))
    return mean, [mp.fsum((i - mean) ** r * x for i, x in enumerate(v)) for r in (2, 3, 4)], \
        [mp.fsum(abs(i - mean) ** r * x for i, x in enumerate(v)) for r in (1, 2, 3)]


def mean(fam, p):
    """The exact mean and the tolerated error."""
    m = _m(p)
    if fam in ("gaussian", "laplace", "logistic"):
        return m[0], 1e-14 * abs(m[0])
    if fam == "exponential":
        return 1 / m[0], 1e-14 / m[0]
    if fam == "gamma":
        return m[0] * m[1], 1e-14 * m[0] * m[1]
    if fam == "lognormal":
        v = mp.exp(m[0] + m[1] ** 2 / 2)
        return v, v * (1e-14 + 16 * EPS * (abs(m[0]) + m[1] ** 2))
    if fam in ("beta", "pert"):
        al, be, a, b = shapes_of(fam, m)
        v = a + (b - a) * al / (al + be) if fam == "beta" else (m[0] + 4 * m[1] + m[2]) / 6
        return v, 16 * EPS * (abs(a) + abs(b)) + (1e-14 * abs(v) if a == 0 else 0)
    if fam == "triangular":
        return (m[0] + m[1] + m[2]) / 3, 16 * EPS * (abs(m[0]) + abs(m[1]))
    if fam == "uniform":
        return (m[0] + m[1]) / 2, 8 * EPS * (abs(m[0]) + abs(m[1]))
    if fam == "categorical":
        v = central(p)[0]
        return v, v * 1e-13 + 1e-300
    P, Q = pq(fam, p)
    n = M(p[0]) if fam.startswith("binomial") else M(1)
    return n * P, 1e-14 * n * P + (EPS * n if fam.endswith("_f") else 0)


def variance(fam, p):
    m = _m(p)
    if fam == "gaussian":
        v = m[1] ** 2
    elif fam == "laplace":
        v = 2 * m[1] ** 2
    elif fam == "logistic":
        v = (mp.pi * m[1]) ** 2 / 3
    elif fam == "exponential":
        v = 1 / m[0] ** 2
    elif fam == "gamma":
        v = m[0] * m[1] ** 2
    elif fam == "lognormal":
        s2 = m[1] ** 2
        v = mp.expm1(s2) * mp.exp(2 * m[0] + s2)
        return v, v * (1e-13 + 16 * EPS * (2 * abs(m[0]) + s2))
    elif fam in ("beta", "pert"):
        al, be, a, b = shapes_of(fam, m)
        s = al + be
        v = (b - a) ** 2 * al * be / (s * s * (s + 1))
        if fam == "beta":
            return v, v * (1e-13 + 32 * EPS * (abs(a) + abs(b)) / (b - a))
        mu = (m[0] + 4 * m[1] + m[2]) / 6
        v = (mu - a) * (b - mu) / 7
        return v, v * (1e-13 + 64 * EPS * (abs(a) + abs(b)) / min(mu - a, b - mu))
    elif fam == "triangular":
        a, b, c = m
        v = (a * a + b * b + c * c - a * b - a * c - b * c) / 18
        return v, v * (1e-13 + 64 * EPS * (abs(a) + abs(b)) / (b - a))
    elif fam == "uniform":
        v = (m[1] - m[0]) ** 2 / 12
        return v, v * (1e-13 + 32 * EPS * (abs(m[0]) + abs(m[1])) / (m[1] - m[0]))
    elif fam == "categorical":
        mu, c, ab = central(p)
        k = len(p)
        return c[0], 1e-12 * c[0] + 4 * EPS * k * ab[0] + (EPS * k * 4) ** 2
    else:
        P, Q = pq(fam, p)
        n = M(p[0]) if fam.startswith("binomial") else M(1)
        v = n * P * Q
        return v, 1e-14 * v
    return v, 1e-13 * v


def skewness(fam, p):
    m = _m(p)
    if fam in ("gaussian", "laplace", "logistic", "uniform"):
        return M(0), M(1e-15)
    if fam == "exponential":
        return M(2), M(1e-14)
    if fam == "gamma":
        v = 2 / mp.sqrt(m[0])
    elif fam == "lognormal":
        s2 = m[1] ** 2
        v = mp.sqrt(mp.expm1(s2)) * (2 + mp.exp(s2))
        return v, v * (1e-12 + 16 * EPS * s2)
    elif fam in ("beta", "pert"):
        al, be, a, b = shapes_of(fam, m)
        s = al + be
        v = 2 * (be - al) * mp.sqrt(s + 1) / ((s + 2) * mp.sqrt(al * be))
        big = 2 * mp.sqrt(s + 1) / ((s + 2) * mp.sqrt(al * be))
        if fam == "beta":
            return v, 1e-13 * abs(v)
        return v, 1e-12 * abs(v) + big * 40 * EPS  # rounded shapes
    elif fam == "triangular":
        a, b, c = m
        d = a * a + b * b + c * c - a * b - a * c - b * c
        v = mp.sqrt(2) * (a + b - 2 * c) * (2 * a - b - c) * (a - 2 * b + c) / (5 * d ** 1.5)
        return v, M(1e-13) + 256 * EPS * (abs(a) + abs(b)) / (b - a)
    elif fam == "categorical":
        mu, c, ab = central(p)
        if c[0] < 1e-14:
            return None
        k = len(p)
        e = 8 * EPS * k
        v = c[1] / c[0] ** 1.5
        return v, 1e-11 * (1 + abs(v)) + e * (3 * ab[1] / c[0] ** 1.5 + 3 * abs(v) * ab[0] / c[0])
    else:
        P, Q = pq(fam, p)
        n = M(p[0]) if fam.startswith("binomial") else M(1)
        if n * P * Q == 0:
            return None
        v = (1 - 2 * P) / mp.sqrt(n * P * Q)
        return v, 1e-12 * abs(v) + 8 * EPS / mp.sqrt(n * P * Q)
    return v, 1e-13 * abs(v)


def kurtosis(fam, p):
    m = _m(p)
    if fam in ("gaussian", "laplace", "logistic", "uniform", "exponential", "triangular"):
        return {"gaussian": M(0), "laplace": M(3), "logistic": M(6) / 5, "uniform": -M(6) / 5, "exponential": M(6),
                "triangular": -M(3) / 5}[fam], M(1e-14)
    if fam == "gamma":
        v = 6 / m[0]
        return v, 1e-13 * v
    if fam == "lognormal":
        s2 = m[1] ** 2
        v = mp.expm1(4 * s2) + 2 * mp.expm1(3 * s2) + 3 * mp.expm1(2 * s2)
        return v, v * (1e-12 + 64 * EPS * s2)
    if fam in ("beta", "pert"):
        al, be, a, b = shapes_of(fam, m)
        s, d = al + be, al - be
        den = al * be * (s + 2) * (s + 3)
        v = 6 * (d * d * (s + 1) - al * be * (s + 2)) / den
        mag = 6 * (d * d * (s + 1) + al * be * (s + 2)) / den
        cond = M(0) if fam == "beta" else 8 * EPS  # rounded shapes
        return v, mag * (1e-13 + 8 * cond)
    if fam == "categorical":
        mu, c, ab = central(p)
        if c[0] < 1e-14:
            return None
        k = len(p)
        e = 8 * EPS * k
        v = c[2] / c[0] ** 2
        return v - 3, 1e-11 * (3 + abs(v)) + e * (4 * ab[2] / c[0] ** 2 + 4 * abs(v) * ab[0] / c[0])
    P, Q = pq(fam, p)
    n = M(p[0]) if fam.startswith("binomial") else M(1)
    if n * P * Q == 0:
        return None
    v = (1 - 6 * P * Q) / (n * P * Q)
    return v, 1e-12 * abs(v) + 16 * EPS / (n * P * Q)


def entropy(fam, p):
    m = _m(p)
    ln = mp.log
    if fam == "gaussian":
        return ln(2 * mp.pi * mp.e * m[1] ** 2) / 2, 1e-13 * (1 + abs(ln(m[1])))
    if fam == "laplace":
        return 1 + ln(2 * m[1]), 1e-13 * (1 + abs(ln(m[1])))
    if fam == "logistic":
        return 2 + ln(m[1]), 1e-13 * (1 + abs(ln(m[1])))
    if fam == "cauchy":
        return ln(4 * mp.pi * m[1]), 1e-13 * (1 + abs(ln(m[1])))
    if fam == "exponential":
        return 1 - ln(m[0]), 1e-13 * (1 + abs(ln(m[0])))
    if fam == "lognormal":
        return m[0] + ln(2 * mp.pi * mp.e * m[1] ** 2) / 2, 1e-13 * (1 + abs(ln(m[1])) + abs(m[0]))
    if fam == "gamma":
        k, t = m
        v = k + ln(t) + mp.loggamma(k) + (1 - k) * mp.digamma(k)
        return v, 1e-10 + 1e-14 * (abs(mp.loggamma(k)) + abs((1 - k) * mp.digamma(k)) + k + abs(ln(t))) + \
            1e-13 * abs(1 - k)
    if fam in ("beta", "pert"):
        al, be, a, b = shapes_of(fam, m)
        s = al + be
        lb = mp.loggamma(al) + mp.loggamma(be) - mp.loggamma(s)
        parts = [ln(b - a), lb, -(al - 1) * mp.digamma(al), -(be - 1) * mp.digamma(be), (s - 2) * mp.digamma(s)]
        cond = M(0) if fam == "beta" else 64 * EPS * 10  # rounded shapes
        return mp.fsum(parts), 1e-10 + 1e-14 * mp.fsum(abs(x) for x in parts) + 64 * EPS * (abs(a) + abs(b)) / (b - a) + cond + \
            1e-13 * (abs(al - 1) + abs(be - 1) + abs(s - 2)) + 1e-14 * s * ln(s + 2)
    if fam == "triangular":
        v = M(1) / 2 + ln((m[1] - m[0]) / 2)
        return v, 1e-13 * (1 + abs(v)) + 32 * EPS * (abs(m[0]) + abs(m[1])) / (m[1] - m[0])
    if fam == "uniform":
        v = ln(m[1] - m[0])
        return v, 1e-13 * (1 + abs(v)) + 32 * EPS * (abs(m[0]) + abs(m[1])) / (m[1] - m[0])
    if fam == "categorical":
        return -mp.fsum(x * ln(x) for x in m if x > 0), M(1e-12)
    P, Q = pq(fam, p)
    if not fam.startswith("binomial"):
        v = -m[0] * ln(m[0]) - (1 - m[0]) * mp.log1p(-m[0])
        return v, v * M(1e-13)
    return None


def plain(ctx, op, fn, edge=False, skip=None, extra=None):
    """One statistic of every family against its closed form."""
    b = Batch()
    plan = []
    for fam in MOMENTS + (["cauchy"] if op == "entropy" else []):
        if fam.startswith("binomial") and op == "entropy":
            continue
        n = ctx.scale(4000, 20000) if fam != "categorical" else ctx.scale(1400, 6000)
        ps = gen.params(fam, ctx.rng, n)
        if edge and fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        for p in ps:
            plan.append((fam, p, op, b.add(fam, p, op).start))
            if op == "variance":
                plan.append((fam, p, "deviation", b.add(fam, p, "deviation").start))
    return b, plan


def check_plain(ctx, op, fn, edge=False, floor=0.0):
    b, plan = plain(ctx, op, fn, edge)
    R = b.run()
    ok = ctx.settle(R, "release")
    seen = {}
    for fam, p, o, i in plan:
        if not ok[i]:
            continue
        r = fn(fam, p)
        if r is None:
            ctx.count("undefined_skipped")
            continue
        v, tol = r
        if o == "deviation":
            # the square root halves the relative error
            tol = tol / (2 * mp.sqrt(v)) + 4 * EPS * mp.sqrt(v) if v > 0 else mp.sqrt(tol)
            if v >= MAX and float(R.val[i]) == INF:
                ctx.count("variance_overflows")  # the square root of an unrepresentable variance
                continue
            v = mp.sqrt(v)
            if v < M("1e-140") and fam in ("exponential", "laplace", "gaussian", "logistic"):
                tol = tol + M("1e-170")
        judge_one(ctx, R, i, fam, o, v, tol + M("1e-300"))
    return R, plan


def judge_one(ctx, R, i, fam, what, v, tol, known=None):
    x = float(R.val[i])
    ctx.count("compared_" + fam)
    if v >= MAX:
        good = x == INF
    elif v <= -MAX:
        good = x == -INF
    elif math.isnan(x) or math.isinf(x):
        good = False
    else:
        err = abs(M(x) - v)
        good = err <= tol
        ctx.ndistinct += 1
        if tol > 0 and abs(v) < M("1e300"):
            ctx.margin(what + "_" + fam, err / tol)
    if len(ctx.samples) < 8 and ctx.rng.random() < .01:
        d = R.describe(i)
        ctx.sample(family=d["family"], params=d["params"][:8], op=d["op"], observed=x, exact=mp.nstr(v, 17), tolerance=mp.nstr(tol, 3))
    if good:
        return
    if known and known(x):
        return
    ctx.violate("%s is off: exact value %s" % (what, mp.nstr(v, 18)), request=R.describe(i), profile="release",
                expected=[mp.nstr(v - tol, 18), mp.nstr(v + tol, 18)])


def c08(ctx):
    check_plain(ctx, "mean", mean, edge=True)
    check_plain(ctx, "variance", variance, edge=True)
    return dict(rule=PARAM_RULE + "mean, variance and deviation of each; non-trivial: finite value compared", assumptions=ASSUME[:1] +
                ["relative tolerance 1e-14 to 1e-12 plus the conditioning of the parameters"])


def c09(ctx):
    check_plain(ctx, "skewness", skewness)
    check_plain(ctx, "kurtosis", kurtosis)
    return dict(rule=PARAM_RULE + "skewness and excess kurtosis of each (degenerate ones skipped); non-trivial: finite value "
                     "compared", assumptions=ASSUME[:1] + ["tolerance 1e-14 to 1e-11 relative plus the conditioning of the parameters"])


def binomial_entropy(n, P, Q, small):
    """Entropy of a binomial distribution in double precision, from logarithms."""
    from scipy.special import gammaln, xlog1py, xlogy
    k = np.arange(n + 1, dtype=float)
    p, q = float(P), float(Q)
    # Stirling-free: cumulative sums of log ratios keep the error small.
    with np.errstate(all="ignore"):
        r = np.log((n - k[:-1]) / (k[:-1] + 1)) + (math.log(p) - math.log(q))
        l = np.concatenate([[0.0], np.cumsum(r.astype(np.longdouble))])
        l = l - l.max()
        w = np.exp(l)
        w = w / w.sum()
        lw = l - np.log(np.exp(l).sum())
        return float(-(w * lw).sum()), np.asarray(w, dtype=float), np.asarray(lw, dtype=float)


def c10(ctx):
    check_plain(ctx, "entropy", entropy)
    b = Batch()
    plan = []
    for fam in ("binomial", "binomial_f"):
        ps = gen.params(fam, ctx.rng, ctx.scale(2000, 8000)) + gen.EDGE_BINOMIAL
        ps += [(float(n), p) for n in range(0, 40) for p in (.5, .25, .07)]
        for p in ps:
            n = p[0]
            v = n * p[1] * (1 - p[1])
            if n > 2e4 and not v > 81:
                if n > ctx.scale(2e5, 1e6):
                    continue
            plan.append((fam, p, b.add(fam, p, "entropy").start))
    R = b.run(cpu=30.0)
    ok = ctx.settle(R, "release")
    for fam, p, i in plan:
        if not ok[i]:
            continue
        P, Q = pq(fam, p)
        n = int(p[0])
        v = float(n * P * Q)
        x = float(R.val[i])
        ctx.count("compared_" + fam)
        if v == 0 or n == 0:
            want, tol, k1 = 0.0, 1e-300, None
        else:
            k1 = None
            if n <= 1000000:
                want, w, lw = binomial_entropy(n, P, Q, fam.endswith("_f"))
                tol = 1e-9 + 8 * EPS * n * 10
                fac = np.array([k1_factor(n, k) for k in (11, n - 11)]) if n > 11 else \
                    np.array([k1_factor(n, k) for k in range(n + 1)])
                if n >= 11:
                    f = np.zeros(n + 1)
                    for k in (range(1, n) if n == 11 else sorted({11, n - 11})):
                        f[k] = k1_factor(n, k)
                    ww = w * np.exp(f)
                    k1 = float(-(np.where(ww > 0, ww * (lw + f), 0)).sum())
            else:
                # Edgeworth: the first correction to the entropy of a Gaussian
                want = 0.5 * (math.log(2 * math.pi * math.e * v)) - (1 - 4 * float(P * Q)) / (12 * v)
                tol = 1e-9 + 0.1 / v ** 2
            if n > 10000 and v > 79:  # documented: a normal approximation
                tol = max(tol, 1e-9 + 1.3 * (1 - 4 * float(P * Q)) / (12 * v) + 1 / v ** 2)
        err = abs(x - want)
        ctx.ndistinct += 1
        ctx.margin("entropy_" + fam, err / tol if err <= tol or k1 is None or not abs(x - k1) <= tol else 0)
        if err <= tol:
            continue
        if k1 is not None and abs(x - k1) <= tol and ctx.finding("K1", R.describe(i)):
            continue
        ctx.violate("entropy is off: exact value %.17g" % want, request=R.describe(i), profile="release", expected=[want - tol, want + tol])
    return dict(rule=PARAM_RULE + "entropy of each (binomial up to n = 1e6 by direct summation of the reference); non-trivial: "
                     "finite value compared", assumptions=ASSUME[:1] +
                ["tolerance 1e-10 where the digamma function enters, 1e-13 relative elsewhere; the first-order error (1 - 4pq)/(12 npq) "
                 "for the documented normal approximation of large binomial distributions"])


# ------------------------------------------------------------------ C11 median
def c11(ctx):
    b = Batch()
    plan = []
    for fam in CONT + DISC:
        if fam == "gamma":
            continue
        ps = gen.params(fam, ctx.rng, ctx.scale(5000, 25000))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        for p in ps:
            if fam == "beta" and min(p[:2]) < .02:
                continue
            plan.append((fam, p, b.add(fam, p, "median").start))
    R = b.run(cpu=20.0)
    ok = ctx.settle(R, "release")
    for fam, p, i in plan:
        if not ok[i]:
            continue
        x = float(R.val[i])
        m = _m(p)
        v = None
        if fam in ("gaussian", "laplace", "logistic", "cauchy"):
            v, tol = m[0], 4 * EPS * abs(m[0])
        elif fam == "exponential":
            v = mp.log(2) / m[0]
            tol = 1e-14 * v
        elif fam == "lognormal":
            v = mp.exp(m[0])
            tol = v * (1e-14 + 8 * EPS * abs(m[0]))
        elif fam == "uniform":
            v, tol = (m[0] + m[1]) / 2, 8 * EPS * (abs(m[0]) + abs(m[1]))
        elif fam == "triangular":
            a, bb, c = m
            v = a + mp.sqrt((bb - a) * (c - a) / 2) if c >= (a + bb) / 2 else bb - mp.sqrt((bb - a) * (bb - c) / 2)
            tol = 1e-13 * (bb - a) + 16 * EPS * (abs(a) + abs(bb))
        if v is not None:
            judge_one(ctx, R, i, fam, "median", v, tol + M("1e-300"))
            continue
        ctx.count("compared_" + fam)
        ctx.ndistinct += 1
        mod = model(fam, p)
        if fam in ("beta", "pert"):
            zz = 16 * EPS * (abs(x) + abs(mod.lo) + abs(mod.hi))
            tol = 1e-8 + acdf(mod)
            if x != x:
                ctx.violate("median is not a number", request=R.describe(i), profile="release")
                continue
            l, h = float(mod.F(mod.z(np.array([x - zz]), 4)[0])[0]), float(mod.F(mod.z(np.array([x + zz]), 4)[0])[0])
            ctx.margin("median_" + fam if not (fam == "beta" and min(p[:2]) > 1) else "median_approx",
                       max(0.0, l - .5, .5 - h) / tol)
            if l - tol <= .5 <= h + tol:
                continue
            if fam == "beta" and p[0] > 1 and p[1] > 1:
                # documented below as the accepted closed form
                k = m[2] + (m[3] - m[2]) * (m[0] - M(1) / 3) / (m[0] + m[1] - M(2) / 3)
                if abs(M(x) - k) <= 1e-13 * (m[3] - m[2]) + 16 * EPS * (abs(m[2]) + abs(m[3])):
                    ctx.count("closed_form_approximation")
                    continue
            a, bb = ref.mp_cdf(fam, p, max(mod.lo, x - zz)), ref.mp_cdf(fam, p, min(mod.hi, x + zz))
            if a - tol <= .5 <= bb + tol:
                continue
            ctx.violate("median has cumulative probability %s" % mp.nstr((a + bb) / 2, 15), request=R.describe(i), profile="release")
            continue
        # Discrete: P(X < x) <= 1/2 <= P(X <= x), or between two such outcomes.
        if fam in ("bernoulli", "bernoulli_f"):
            P, Q = pq(fam, p)
            want = {0.0} if P < Q else {1.0} if P > Q else {0.0, 0.5, 1.0}
            if abs(P - Q) < 4 * EPS and P != Q:
                want = {0.0, 0.5, 1.0}
            if x not in want:
                ctx.violate("median is off", request=R.describe(i), profile="release", expected=sorted(want))
            continue
        tol = acdf(mod) if fam != "categorical" else 1e-15 * (len(p) + 2)
        if not (x == x and 0 <= x <= mod.n):
            ctx.violate("median is not between the outcomes", request=R.describe(i), profile="release")
            continue
        Fx = float(mod.cdf(np.array([x]))[0])
        Fb = float(mod.cdf(np.array([math.ceil(x) - 1.0]))[0])  # P(X < x)
        if Fb <= .5 + tol and Fx >= .5 - tol:
            if abs(Fb - .5) <= 1e-6 or abs(Fx - .5) <= 1e-6:
                ctx.count("near_ties")
            continue
        Fx, Fb = ref.mp_dcdf(fam, p, x), ref.mp_dcdf(fam, p, math.ceil(x) - 1)
        if Fb <= .5 + tol and Fx >= .5 - tol:
            continue
        if fam == "categorical":
            # K3: a tie after outcome j >= 1 is reported as j - 1/2 instead of j + 1/2.
            j = x + .5
            if j == int(j) and j >= 1 and j < len(p) and abs(ref.mp_dcdf(fam, p, j) - .5) <= tol and \
                    ctx.finding("K3", R.describe(i)):
                continue
        ctx.violate("median %r has P(X < m) = %s and P(X <= m) = %s" % (x, mp.nstr(Fb, 15), mp.nstr(Fx, 15)),
                    request=R.describe(i), profile="release")
    return dict(rule=PARAM_RULE + "median of each; non-trivial: every one compared", assumptions=ASSUME[:1] +
                ["Beta and Pert are judged by the probability of the returned point within 1e-8; for Beta with both shapes above one "
                 "the documented closed-form approximation is accepted as well"])


# ------------------------------------------------------------------ C12 modes
def c12(ctx):
    b = Batch()
    plan = []
    for fam in CONT + DISC:
        if fam == "uniform":
            continue
        ps = gen.params(fam, ctx.rng, ctx.scale(5000, 25000))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
            for _ in range(ctx.scale(1000, 10000)):  # exact ties: dyadic probability times n + 1 is an integer
                e = int(ctx.rng.integers(1, 12))
                n = int(ctx.rng.integers(1, 300)) * 2 ** e - 1
                ps.append((float(n), float(ctx.rng.integers(1, 2 ** e)) / 2 ** e))
        if fam == "categorical":
            for _ in range(ctx.scale(500, 5000)):
                k = int(ctx.rng.integers(2, 20))
                w = ctx.rng.choice([1., 2., 3., 3.], k)
                ps.append(tuple(float(v) for v in w / w.sum()))
        for p in ps:
            plan.append((fam, p, b.add(fam, p, "modes").start))
    R = b.run()
    ok = ctx.settle(R, "release")
    for fam, p, i in plan:
        if not ok[i]:
            continue
        got = [float(v) for v in R.list(i)]
        ctx.count("compared_" + fam)
        m = _m(p)
        want, tol = None, M(0)
        if fam in ("gaussian", "laplace", "logistic", "cauchy"):
            want = [m[0]]
        elif fam == "exponential":
            want = [M(0)]
        elif fam == "gamma":
            want = [(m[0] - 1) * m[1]] if m[0] >= 1 else []
            tol = 1e-14 * abs((m[0] - 1) * m[1])
        elif fam == "lognormal":
            want = [mp.exp(m[0] - m[1] ** 2)]
            tol = want[0] * (1e-14 + 8 * EPS * (abs(m[0]) + m[1] ** 2))
        elif fam == "pert":
            want = [m[1]]
            tol = 8 * EPS * (abs(m[0]) + abs(m[2]))
        elif fam == "triangular":
            want = [m[2]]
        elif fam == "beta":
            al, be, lo, hi = m
            edge = 16 * EPS * (abs(lo) + abs(hi))
            if al > 1 and be > 1:
                want = [lo + (hi - lo) * (al - 1) / (al + be - 2)]
                tol = edge + (hi - lo) * (1e-14 + 8 * EPS * (al + be) / (al + be - 2))
            elif al == 1 and be == 1:
                want = []
            elif al < 1 and be < 1:
                want = [lo, hi]
            elif al < be or (al <= 1 and be > 1):
                want = [lo]
            else:
                want = [hi]
        if want is not None:
            ctx.ndistinct += 1
            good = len(got) == len(want) and all(abs(M(g) - w) <= tol + M("1e-300") if math.isfinite(g) else
                                                 (w >= MAX and g == INF) for g, w in zip(got, want))
            if not good:
                ctx.violate("modes are off: exact %s" % [mp.nstr(w, 17) for w in want], request=R.describe(i), profile="release")
            continue
        # Discrete: exact rational comparison of the masses.
        if not got or got != sorted(set(got)):
            ctx.violate("modes are empty, repeated, or unordered", request=R.describe(i), profile="release")
            continue
        ctx.ndistinct += 1
        if fam == "categorical":
            top = max(p)
            w = [float(j) for j, v in enumerate(p) if v == top]
            if len(w) > 1:
                ctx.count("ties")
            if got != w:
                ctx.violate("modes are off: exact %s" % w, request=R.describe(i), profile="release")
            continue
        a = Fraction(float(p[-1]))
        P, Q = (1 - a, a) if fam.endswith("_f") else (a, 1 - a)
        n = int(p[0]) if fam.startswith("binomial") else 1
        r = (n + 1) * P
        if P == 1:
            w = [n]
        elif P == 0:
            w = [0]
        elif r == int(r) and 1 <= r <= n:
            w = [int(r) - 1, int(r)]
            ctx.count("ties")
        else:
            w = [min(n, int(r))]
        if got == [float(v) for v in w]:
            continue
        # A float cannot resolve ties closer than its rounding: accept an outcome
        # whose mass is within 1e-9 of the largest, but demand exact dyadic ties.
        near = set(w)
        for k in (w[0] - 1, w[-1] + 1):
            if 0 <= k <= n:
                j = min(w, key=lambda v: abs(v - k))
                # ratio of neighbouring masses
                hi_, lo_ = max(j, k), min(j, k)
                ratio = Fraction(n - lo_, hi_) * P / Q if Q else None
                if ratio is not None and abs(float(ratio) - 1) < 1e-9:
                    near.add(k)
        exact_tie = len(w) == 2 and Fraction(float(p[-1])).denominator * (n + 1) < 2 ** 50
        good = set(int(g) for g in got) <= near and not exact_tie
        if len(w) == 2 and not exact_tie:
            good = good and True
        elif len(w) == 1 and len(near) == 1:
            good = False
        if not good:
            ctx.violate("modes are off: exact %s" % w, request=R.describe(i), profile="release")
    return dict(rule=PARAM_RULE + "modes of each, with dyadic binomial and categorical ties; the masses of neighbouring outcomes are "
                     "compared as exact rationals; non-trivial: every one compared", assumptions=
                ["two outcomes whose masses differ by less than 1e-9 relatively may either be reported"])
