"""Monitors for the functions of a distribution: each drives the library over a
wide workload and judges every recorded value against the reference model."""
import math
from fractions import Fraction
import numpy as np
import mpmath as mp
import scipy.special as sp
import gen, ref
from gen import CONT, DISC, INV, MOMENTS, INF, EPS
from ref import Cont, Disc
from vlib import Batch, OK

DELTA_K1 = 1.83692059243e-4  # error of the entry for 11 in the table of Stirling errors


def model(fam, p):
    return Cont(fam, p) if fam in CONT else Disc(fam, p)


def points(m, rng, n):
    """Query points of a continuous distribution: quantiles across the bulk and
    both tails, the ends of the support and their neighbours, and infinities."""
    ps = gen.probabilities(rng, n, fam=m.fam)
    with np.errstate(all="ignore"):
        v = np.array([gen.literal(m.fam, rng) for _ in range(4)])
        v *= rng.choice([-1, 1], 4) if m.fam in gen.LOCSCALE else 1
        x = [m.ppf(ps), m.x(rng.uniform(-3, 3, 6)), m.x(v), v, [INF, -INF, 0.0, -0.0, 1.0, -1.0]]
        for e in (m.lo, m.hi):
            if math.isfinite(e):
                x.append([e, np.nextafter(e, INF), np.nextafter(e, -INF), e - 1, e + 1,
                          e - abs(e) * .5 - 1e-3, e + abs(e) * .5 + 1e-3])
        if m.fam in ("gaussian", "lognormal"):
            x.append(m.x(np.array([-38., -30, -10, -6, -5, 5, 6, 10, 30, 38])))
            x.append(m.x(rng.uniform(-9, 9, 6)))
            # The error function switches its expansion at these points.
            for z in (0.84375, 1.25, 1 / 0.35, 6.0, 28.0):
                x.append(m.x(np.array([1, -1]) * math.sqrt(2) * z * np.array([1, 1])))
        elif m.fam == "cauchy":
            x.append(m.x(np.array([-1e300, -1e15, -1e6, 1e6, 1e15, 1e300, 7 / 16, 11 / 16, 19 / 16, 39 / 16, -7 / 16])))
        elif m.fam in ("laplace", "logistic"):
            x.append(m.x(np.array([-1e4, -800, -745, -710, -40, 40, 710, 745, 800, 1e4, 0])))
        elif m.fam in ("exponential", "gamma"):
            x.append(m.x(np.array([1e-300, 1e-100, 1e-20, 1e-9, 1e-3, 1, 30, 700, 745, 800, 1e4])))
        elif m.fam in ("beta", "pert"):
            x.append(m.x(np.array([1e-300, 1e-100, 1e-20, 1e-9, 1e-3, .5, 1 - 1e-9, 1 - 1e-14])))
        elif m.fam == "triangular":
            x.append([m.c, np.nextafter(m.c, INF), np.nextafter(m.c, -INF)])
    x = np.concatenate([np.asarray(v, dtype=float).ravel() for v in x])
    return np.unique(x[~np.isnan(x)])


def lattice(m, rng, n):
    """Query points of a discrete distribution."""
    k = [m.ppf_guess(gen.probabilities(rng, n, extreme=False, fam=m.fam)), [0, 1, 2, m.n, m.n - 1, m.n - 2, m.n // 2, m.n // 2 + 1]]
    if m.fam.startswith("binomial"):
        k.append([5, 10, 11, 12, 15, 16, 17, 35, 36, 80, 81, 500, 501])
        k.append(m.n - np.array([5, 10, 11, 12, 15, 16, 17, 35, 36, 80, 81, 500, 501]))
    if m.n <= 40:
        k.append(np.arange(m.n + 1))
    else:
        k.append(rng.integers(0, m.n + 1, 4))
    v = np.floor([gen.literal(m.fam, rng) for _ in range(4)])
    k += [v, m.n - v]
    k = np.unique(np.concatenate([np.asarray(v, dtype=float).ravel() for v in k]))
    return k[(k >= 0) & (k <= m.n)]


def compare(ctx, R, ok, s, refv, tl, th, what, exact=None, known=None, key=None, profile="release",
            limit=6, nontrivial=None):
    """Judge the observations of slice `s` against refv - tl .. refv + th. A value
    outside is re-decided against `exact(j)` (high precision) before it counts."""
    obs = R.val[s]
    refv, tl, th = (np.broadcast_to(np.asarray(v, dtype=float), obs.shape) for v in (refv, tl, th))
    with np.errstate(all="ignore"):
        good = (obs == refv) | ((obs >= refv - tl) & (obs <= refv + th) & np.isfinite(refv))
        bad = ok[s] & ~good
        if key:
            d = np.where(obs < refv, (refv - obs) / tl, (obs - refv) / th)
            sel = ok[s] & np.isfinite(d) & (tl + th < 1e-3 * np.maximum(1e-300, np.abs(refv)))
            if sel.any():
                ctx.margin(key, d[sel].max())
    ctx.count("compared_" + (key or what), int(ok[s].sum()))
    if nontrivial is None:
        ctx.ndistinct += int((ok[s] & np.isfinite(refv)).sum())
    else:
        ctx.ndistinct += int((ok[s] & nontrivial).sum())
    if len(ctx.samples) < 8 and ctx.rng.random() < .02 and len(obs):
        i = len(obs) // 2
        if ok[s][i]:
            d = R.describe(s.start + i)
            ctx.sample(family=d["family"], params=d["params"][:8], op=d["op"], arg=d["arg"], observed=float(obs[i]),
                       tolerated=[float(refv[i] - tl[i]), float(refv[i] + th[i])])
    if not bad.any():
        return
    full = np.zeros(len(R.val), dtype=bool)
    full[s] = bad

    def arbiter(i):
        j = i - s.start
        o = float(R.val[i])
        v = exact(j)
        if v is None:
            return None
        v = mp.mpf(v) if not isinstance(v, mp.mpf) else v
        if mp.isinf(v):
            return None if mp.mpf(o) == v else "exact value %s" % v
        if o == o and not math.isinf(o):
            # The tolerance is re-centred on the exact value.
            a, b = mp.mpf(float(tl[j])), mp.mpf(float(th[j]))
            if v - a <= o <= v + b:
                return None
            if not math.isfinite(float(tl[j] + th[j])) and abs(o - v) <= 1e-300:
                return None
            if abs(float(refv[j]) - v) > 1e-6 * abs(v) and abs(o - v) <= 1e-9 * abs(v):
                return None  # the first pass was lost to overflow or underflow
        return "exact value %s" % mp.nstr(v, 18)

    ctx.judge(R, full, what, expected=lambda i: [float((refv - tl)[i - s.start]), float((refv + th)[i - s.start])],
              arbiter=arbiter if exact else None,
              known=(lambda i: known(i - s.start, float(R.val[i]))) if known else None, profile=profile, limit=limit)


# ------------------------------------------------------------------ C02 values of the CDF
# Absolute tolerance on the probability, on top of the conditioning interval.
ACDF = {"beta": 2e-9, "pert": 2e-10, "gamma": 1e-10, "binomial": 1e-11, "binomial_f": 1e-11,
        "categorical": 1e-13, "bernoulli": 1e-15, "bernoulli_f": 1e-15}
# Families whose lower tail keeps relative accuracy.
RELATIVE_TAIL = ("cauchy", "exponential", "gaussian", "laplace", "logistic", "lognormal", "uniform", "triangular")


def acdf(m):
    """Absolute accuracy expected of the distribution function."""
    a = ACDF.get(m.fam, 2e-14)
    if m.fam.startswith("binomial"):
        a += min(1.0, 1.6 * EPS * m.n * math.log(m.n + 2.0))
    elif m.fam in ("beta", "pert"):
        a += 32 * EPS * (m.al + m.be) * math.log(m.al + m.be + 2)
        if m.fam == "pert":  # the shapes themselves are rounded
            a += 64 * EPS
    elif m.fam == "categorical":
        a += EPS * len(m.p) + abs(float(m.cum[-1]) - 1)
    elif m.fam == "gamma":
        a += 32 * EPS * m.p[0] * math.log(m.p[0] + 2)
    return a


def cdf_tolerance(m, x):
    a = acdf(m)
    if isinstance(m, Cont):
        mid = np.where(x <= m.lo, 0.0, np.where(x >= m.hi, 1.0, m.F(m.z(x)[0])))
        lo, hi = m.cdf_interval(x)
        if m.fam in RELATIVE_TAIL:
            a = np.where(mid < 0.1, 1e-12 * mid + (1e-307 if m.fam in ("gaussian", "lognormal") else 1e-320), 1e-13)
            if m.fam == "triangular":
                a = np.where(x <= m.c, a, 1e-13)
                if m.c > m.a:  # gradual underflow of the square
                    a = a + 1e-322 / (m.b - m.a) / (m.c - m.a)
        outside = (x <= m.lo) | (x >= m.hi)
        tl, th = np.maximum(mid - lo, 0) + a, np.maximum(hi - mid, 0) + a
        return mid, np.where(outside, 0, tl), np.where(outside, 0, th)
    F = m.cdf(x)
    tol = np.where((x < 0) | (x >= m.n), 0.0, a)
    if m.fam == "categorical":
        tol = np.where(x < 0, 0.0, a)
    elif m.fam.startswith("binomial") and m.n > 0:
        # The probability of no success has a closed form.
        with np.errstate(all="ignore"):
            l = m.n * m.lnq()
            first = (x >= 0) & (x < 1)
            tol = np.where(first, F * min(1.0, 8 * EPS * (1 + abs(l) if math.isfinite(l) else 1)) + 1e-307, tol)
    return F, tol, tol


def beyond(fam, p):
    """Findings about the incomplete functions the library depends on: K4, the
    distribution function of more than 1e13 trials; K5, the one of a gamma
    distribution whose bulk lies beyond 1e8 scales."""
    if fam.startswith("binomial") and p[0] > 1e13:
        return "K4"
    if fam == "gamma" and p[0] > 9.9e7:
        return "K5"
    return None


BEYOND = [("binomial", (9007199254740993., 1e-15)), ("binomial_f", (9007199254740993., 1 - 2.0 ** -50)), ("gamma", (1e9, 1.)), ("gamma", (2e8, .5))]


def exact_cdf(fam, p, x):
    return lambda j: ref.mp_cdf(fam, p, float(x[j])) if fam in CONT else ref.mp_dcdf(fam, p, float(x[j]))


def cdf_points(ctx, fam, p, npts):
    m = model(fam, p)
    if fam in CONT:
        x = points(m, ctx.rng, npts)
    else:
        k = lattice(m, ctx.rng, npts)
        x = np.concatenate([k, k + 0.5, np.nextafter(k[1:], -INF), k[:3] + ctx.rng.random(len(k[:3])),
                            [-INF, INF, -1.0, -0.5, -1e-300, -0.0, m.n + 0.5, m.n + 1.0, m.n + 1e9, 1e300, -1e300]])
        x = np.unique(x)
    return m, x


def plan_cdf(ctx, fams, n, npts):
    """Queries of the distribution function."""
    b = Batch()
    plan = []
    for fam in fams:
        ps = gen.params(fam, ctx.rng, n)
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        ps += [p for f, p in BEYOND if f == fam]
        for p in ps:
            m, x = cdf_points(ctx, fam, p, npts)
            plan.append((fam, p, m, x, b.add(fam, p, "cdf", x)))
    return b, plan


PARAM_RULE = ("parameters: fixed awkward sets (unit shapes, ties, regime boundaries, extreme scales) plus log-uniform random "
              "ones per family; ")
ASSUME = ["scipy/boost (first pass) and mpmath at 50 digits (before any alarm) agree with the mathematics",
          "tolerance: the exact value over arguments within 16 ulp (conditioning) plus a per-family accuracy term",
          "a rounding-level deviation below the tolerance is not a violation"]


def c02(ctx):
    b, plan = plan_cdf(ctx, CONT + DISC, ctx.scale(1000, 4000), ctx.scale(18, 36))
    R = b.run()
    ok = ctx.settle(R, "release")
    for fam, p, m, x, s in plan:
        mid, tl, th = cdf_tolerance(m, x)
        compare(ctx, R, ok, s, mid, tl, th, "distribution function is off", exact=None if beyond(fam, p) else exact_cdf(fam, p, x), key=None if beyond(fam, p) else fam,
                nontrivial=(mid > 1e-12) & (mid < 1 - 1e-12), known=lambda j, o: beyond(fam, p))
    return dict(rule=PARAM_RULE + "points: quantiles across bulk and tails, neighbours of support ends, regime switches, "
                     "infinities; non-trivial: reference value in (1e-12, 1-1e-12)", assumptions=ASSUME)


# ------------------------------------------------------------------ C01 law of the CDF
def c01(ctx):
    """Range, limits, monotonicity, and steps: needs no reference values."""
    b = Batch()
    plan = []
    for fam in CONT + DISC:
        ps = gen.params(fam, ctx.rng, ctx.scale(700, 2500))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        ps += [p for f, p in BEYOND if f == fam]
        for p in ps:
            m, x = cdf_points(ctx, fam, p, ctx.scale(14, 30))
            # Clusters of neighbouring arguments, where a crack would show.
            fin = x[np.isfinite(x)]
            c = ctx.rng.choice(fin, min(len(fin), ctx.scale(8, 24)), replace=False)
            x = np.unique(np.concatenate([x, np.nextafter(c, INF), np.nextafter(c, -INF), c * (1 + 1e-12), c * (1 + 1e-6)]))
            plan.append((fam, p, m, x, b.add(fam, p, "cdf", x)))
    R = b.run()
    ok = ctx.settle(R, "release")
    for fam, p, m, x, s in plan:
        obs = R.val[s]
        o = ok[s]
        n = len(x)
        full = np.zeros(len(R.val), dtype=bool)

        def flag(bad, what):
            full[:] = False
            full[s] = bad & o
            ctx.judge(R, full, what, limit=4, known=lambda i: beyond(fam, p))
        # The unit interval, up to the rounding of the last operation.
        flag(~((obs >= 0) & (obs <= 1 + 1e-15)),
             "not a probability")
        flag((x == INF) & (obs != 1.0) & (np.abs(obs - 1) > 1e-15), "not one at infinity")
        flag((x == -INF) & (obs != 0), "not zero at minus infinity")
        flag((x < m.lo if fam in CONT else x < 0) & (obs != 0), "positive below the support")
        if fam in CONT:
            if math.isfinite(m.hi):
                flag((x >= m.hi) & (obs != 1), "not one above the support")
            if math.isfinite(m.lo):
                flag((x <= m.lo) & (obs != 0), "positive at the lower end of the support")
        else:
            flag((x >= m.n) & (np.abs(obs - 1) > 0), "not one at the largest outcome")
        # Monotonicity up to the accuracy of the distribution function.
        tol = np.full(n, 2 * acdf(m)) if fam not in ("categorical", "bernoulli", "bernoulli_f") else np.zeros(n)
        if fam in RELATIVE_TAIL:
            tol = np.maximum(obs, 1e-300) * 4e-15
            if fam == "triangular":
                tol = np.maximum(tol, 2e-15)
        run = np.maximum.accumulate(np.where(o, obs, -INF))
        drop = np.zeros(n, dtype=bool)
        drop[1:] = run[:-1] > obs[1:] + tol[1:]
        if o.sum() > 1:
            with np.errstate(all="ignore"):
                d = (run[:-1] - obs[1:])[o[1:]]
                if tol[0] > 0 and fam not in RELATIVE_TAIL and not beyond(fam, p):
                    ctx.margin("drop_" + fam, max(0.0, d.max() / tol[0]))
        flag(drop, "decreasing")
        if fam in DISC:
            k = np.floor(x)
            same = np.zeros(n, dtype=bool)
            same[1:] = (k[1:] == k[:-1]) & (obs[1:] != obs[:-1]) & o[:-1]
            flag(same, "not constant between outcomes")
        ctx.ndistinct += int((o & (obs > 0) & (obs < 1)).sum())
        ctx.count("points_" + fam, n)
        if len(ctx.samples) < 6 and ctx.rng.random() < .02:
            i = np.arange(0, n, max(1, n // 5))
            ctx.sample(family=fam, params=list(p)[:8], x=[float(v) for v in x[i]], observed=[float(v) for v in obs[i]])
    return dict(rule=PARAM_RULE + "sorted query points with clusters of adjacent floats; non-trivial: observed value strictly "
                     "between zero and one", assumptions=["monotone up to twice the stated accuracy of the family's distribution function"])


# ------------------------------------------------------------------ C03 density
def density_tolerance(m, x):
    z, _ = m.z(x)
    with np.errstate(all="ignore"):
        lo, hi = m.pdf_interval(x)
        mid = m.f(z) * m.jac(x)
        out = (x < m.lo) | (x > m.hi) | (x == INF) | (x == -INF)
        if m.fam in ("lognormal", "gamma"):
            out |= x <= 0
        mid = np.where(out, 0.0, mid)
        rel = np.full(x.shape, 1e-12)
        if m.fam == "gamma":
            k, t = m.p
            lx = np.abs(np.log(np.where(x > 0, x, 1.0)))
            rel = rel + 16 * EPS * (abs(k - 1) * lx + x / t + abs(math.lgamma(k)) + k * abs(math.log(k)) + k * abs(math.log(t)))
        elif m.fam in ("beta", "pert"):
            t = np.clip(z, 1e-320, 1)
            rel = rel + 16 * EPS * (abs(m.al - 1) * np.abs(np.log(t)) + abs(m.be - 1) * np.abs(np.log1p(-np.minimum(t, 1 - EPS))) +
                                    (m.al + m.be) * math.log(m.al + m.be + 2) + abs(math.log(min(m.al, m.be))))
            if m.fam == "pert":  # the shapes themselves are rounded
                da = 64 * EPS
                rel = rel + da * (10 + np.abs(np.log(t)) + np.abs(np.log1p(-np.minimum(t, 1 - EPS))))
        tl = np.maximum(mid - lo, 0) + rel * np.abs(mid)
        th = np.maximum(hi - mid, 0) + rel * np.abs(mid)
        # Gradual underflow.
        tl, th = tl + 1e-305 * np.maximum(1, m.jac(x)), th + 1e-305 * np.maximum(1, m.jac(x))
        if m.fam == "cauchy":  # the square of the deviation overflows first
            tl, th = tl + 1e-307 * m.scale, th + 1e-307 * m.scale
    zero = out
    return mid, np.where(zero, 0, tl), np.where(zero, 0, th)


def c03(ctx):
    b = Batch()
    plan = []
    for fam in CONT:
        for p in gen.params(fam, ctx.rng, ctx.scale(2400, 8000)):
            m = model(fam, p)
            x = points(m, ctx.rng, ctx.scale(18, 36))
            plan.append((fam, p, m, x, b.add(fam, p, "pdf", x)))
    R = b.run()
    ok = ctx.settle(R, "release")
    for fam, p, m, x, s in plan:
        mid, tl, th = density_tolerance(m, x)
        obs = R.val[s]
        full = np.zeros(len(R.val), dtype=bool)
        full[s] = ok[s] & ~(obs >= 0)
        ctx.judge(R, full, "negative or undefined density", limit=4)

        def exact(j):
            v = ref.mp_pdf(fam, p, float(x[j]))
            lim = mp.mpf(2) ** 1024
            return mp.inf if v >= lim else v
        compare(ctx, R, ok, s, mid, tl, th, "density is off", exact=exact, key=fam, nontrivial=(mid > 0) & np.isfinite(mid))
    return dict(rule=PARAM_RULE + "points: quantiles, support ends and their neighbours, infinities; non-trivial: positive "
                     "finite density", assumptions=ASSUME)


# ------------------------------------------------------------------ C04 mass
def mass_tolerance(m, k):
    f = m.pmf(k)
    if m.fam == "categorical":
        return f, np.zeros(k.shape)
    if m.fam in ("bernoulli", "bernoulli_f"):
        return f, np.full(k.shape, 1e-15) * f + 0
    n, pp, qq = float(m.n), m.pp, m.qq
    with np.errstate(all="ignore"):
        np_, nq = n * pp, n * qq
        j = n - k
        t = sp.xlogy(k, k / np_) + sp.xlogy(j, j / nq)
        rel = 1e-12 + 64 * EPS * (np.abs(sp.xlogy(k, k / np_)) + np.abs(sp.xlogy(j, j / nq)) + np.abs(k - np_) +
                                  np.abs(k - np_) * (1 + pp / max(qq, 1e-300) * (m.fam == "binomial")) + 1)
        rel = np.where(np.isfinite(rel), rel, 1e-9)
    tol = rel * f + 1e-300
    tol = np.where(k > n, 0, tol)
    return f, tol


def k1_factor(n, x):
    """The factor by which the mass is off because of finding K1."""
    if not 0 < x < n:
        return 0.0
    return DELTA_K1 * ((n == 11) - (x == 11) - (n - x == 11))


def c04(ctx):
    b = Batch()
    plan = []
    for fam in DISC:
        ps = gen.params(fam, ctx.rng, ctx.scale(3000, 15000))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        for p in ps:
            m = model(fam, p)
            k = lattice(m, ctx.rng, ctx.scale(18, 40))
            if fam in ("bernoulli", "bernoulli_f"):
                k = np.array([0., 1, 2, 3, 127, 128, 254, 255])
            elif fam != "categorical":
                k = np.unique(np.concatenate([k, [m.n + 1, m.n + 2, 2 * m.n + 5, 2.0 ** 52]]))
            plan.append((fam, p, m, k, b.add(fam, p, "pdf", k)))
    R = b.run()
    ok = ctx.settle(R, "release")
    for fam, p, m, k, s in plan:
        f, tol = mass_tolerance(m, k)
        obs = R.val[s]
        full = np.zeros(len(R.val), dtype=bool)
        full[s] = ok[s] & ~((obs >= 0) & (obs <= 1 + 1e-9))
        ctx.judge(R, full, "mass outside the unit interval", limit=4)

        def known(j, o):
            if not fam.startswith("binomial"):
                return None
            d = k1_factor(m.n, int(k[j]))
            v = float(ref.mp_pmf(fam, p, int(k[j])))
            return "K1" if d and abs(o - v * math.exp(d)) <= 2 * tol[j] + 1e-10 * v else None
        compare(ctx, R, ok, s, f, tol, tol, "mass is off", exact=lambda j: ref.mp_pmf(fam, p, int(k[j])), known=known,
                key=fam, nontrivial=(f > 1e-290) & (f < 1), limit=40)
    return dict(rule=PARAM_RULE + "points: whole lattice for small n, else quantiles, ends and the switches of the expansion, and "
                     "beyond the largest outcome; non-trivial: 1e-290 < mass < 1", assumptions=ASSUME)


# ------------------------------------------------------------------ C05 density/mass against the CDF
GL_X, GL_W = np.polynomial.legendre.leggauss(24)


def c05(ctx):
    """The library against itself: increments of the distribution function are
    integrals of the density, or sums of the mass."""
    b = Batch()
    plan = []
    for fam in CONT:
        for p in gen.params(fam, ctx.rng, ctx.scale(700, 2500)):
            m = model(fam, p)
            with np.errstate(all="ignore"):
                c = m.ppf(np.concatenate([ctx.rng.random(ctx.scale(5, 8)), gen.lu(ctx.rng, 1e-6, .1, 2), 1 - gen.lu(ctx.rng, 1e-6, .1, 2)]))
                iqr = float(m.ppf(np.array([.75]))[0] - m.ppf(np.array([.25]))[0])
            c = c[np.isfinite(c)]
            h = np.full(c.shape, 0.5 * iqr)
            if fam in ("gaussian", "laplace", "logistic"):  # far into the tail that keeps its digits
                t = m.ppf(gen.lu(ctx.rng, 1e-280, 1e-6, ctx.scale(3, 6)))
                t = t[np.isfinite(t)]
                c, h = np.concatenate([c, t]), np.concatenate([h, 0.4 * iqr / (1 + np.abs(m.z(t)[0]) * (fam == "gaussian"))])
            elif fam in ("lognormal", "cauchy"):
                with np.errstate(all="ignore"):
                    t = m.ppf(gen.lu(ctx.rng, 1e-100, 1e-6, ctx.scale(3, 6)))
                t = t[np.isfinite(t) & (np.abs(t) < 1e150)]
                z = np.abs(m.z(t)[0])
                c = np.concatenate([c, t])
                h = np.concatenate([h, t * np.minimum(.3, 0.5 * m.sigma / (1 + z)) if fam == "lognormal" else np.zeros(len(t))])
            for e in (m.lo, m.hi):
                if math.isfinite(e):
                    h = np.minimum(h, 0.4 * np.abs(c - e))
            if fam in ("triangular", "laplace"):  # a kink
                kink = m.c if fam == "triangular" else m.loc
                h = np.minimum(h, np.abs(c - kink))
            if fam == "cauchy":
                h = 0.3 * np.maximum(np.abs(c - m.loc), m.scale)
            x1, x2 = c - h, c + h
            keep = (x1 >= m.lo) & (x2 <= m.hi) & (x2 - x1 > 1e-9 * np.abs(c)) & (x2 - x1 > 1e-280)
            if fam == "gamma":  # the standardized argument is subnormal
                keep &= x1 > 1e-290 * p[1]
            x1, x2 = x1[keep], x2[keep]
            if not len(x1):
                continue
            nodes = (0.5 * (x1 + x2))[:, None] + (0.5 * (x2 - x1))[:, None] * GL_X[None, :]
            plan.append((fam, p, m, x1, x2, b.add(fam, p, "cdf", x1), b.add(fam, p, "cdf", x2), b.add(fam, p, "pdf", nodes.ravel())))
    dplan = []
    for fam in DISC:
        for p in gen.params(fam, ctx.rng, ctx.scale(800, 3000)) + (gen.EDGE_BINOMIAL if fam == "binomial" else []):
            m = model(fam, p)
            if m.n <= ctx.scale(2000, 20000) and ctx.rng.random() < ctx.scale(.5, .7) or m.n <= 60:
                k = np.arange(m.n + 1, dtype=float)
                dplan.append((fam, p, m, k, True, b.add(fam, p, "cdf", k), b.add(fam, p, "pdf", k)))
            else:
                k = lattice(m, ctx.rng, 12)
                k = k[k > 0]
                if len(k):
                    s1 = b.add(fam, p, "cdf", k)
                    s0 = b.add(fam, p, "cdf", k - 1)
                    dplan.append((fam, p, m, k, s0, s1, b.add(fam, p, "pdf", k)))
    R = b.run()
    ok = ctx.settle(R, "release")
    for fam, p, m, x1, x2, s1, s2, sd in plan:
        d = R.val[sd].reshape(len(x1), -1)
        with np.errstate(all="ignore"):
            integral = (d * GL_W).sum(axis=1) * 0.5 * (x2 - x1)
            inc = R.val[s2] - R.val[s1]
            scale = np.maximum(d.max(axis=1), 0)
            cond = 16 * EPS * (np.abs(x1) + np.abs(x2)) * scale
            if m.fam not in ("exponential", "gamma", "lognormal"):
                cond = cond + 16 * EPS * (abs(getattr(m, "loc", 0)) + (abs(m.lo) + abs(m.hi) if math.isfinite(m.lo) else 0)) * scale
            if m.fam == "lognormal":
                cond = cond + 64 * EPS * (abs(m.mu) + 1 + np.abs(np.log(x1))) / m.sigma
            base = 4 * acdf(m)
            if fam in RELATIVE_TAIL and fam not in ("triangular", "uniform"):
                base = np.minimum(base, 1e-11 * R.val[s2] + 1e-300 + 1e-307 * (x2 - x1))  # gradual underflow
            tol = 1e-9 * integral + base + cond * 2
            o = ok[s1] & ok[s2] & ok[sd].reshape(len(x1), -1).all(axis=1)
            bad = o & ~(np.abs(inc - integral) <= tol)
            if o.any():
                ctx.margin(fam, (np.abs(inc - integral) / tol)[o].max())
        ctx.count("intervals_" + fam, int(o.sum()))
        ctx.count("intervals_far_in_the_lower_tail", int((o & (inc > 0) & (R.val[s2] < 1e-6)).sum()))
        ctx.ndistinct += int((o & (integral > 1e-6)).sum())
        if len(ctx.samples) < 6 and ctx.rng.random() < .02:
            ctx.sample(family=fam, params=list(p), interval=[float(x1[0]), float(x2[0])], increment=float(inc[0]), integral=float(integral[0]))
        for i in np.where(bad)[0][:3]:
            ctx.violate("increment of the distribution function %.17g over [%r, %r] differs from the integral of the density %.17g" %
                        (inc[i], float(x1[i]), float(x2[i]), integral[i]), request=R.describe(s2.start + i), profile="release")
    for entry in dplan:
        fam, p, m, k = entry[:4]
        if entry[4] is True:
            s1, sm = entry[5:]
            mass, F = R.val[sm], R.val[s1]
            o = ok[sm] & ok[s1]
            inc = np.diff(np.concatenate([[0.0], F]))
            whole = True
        else:
            s0, s1, sm = entry[4:]
            mass = R.val[sm]
            o = ok[sm] & ok[s1] & ok[s0]
            inc = R.val[s1] - R.val[s0]
            whole = False
        if fam == "categorical":
            tol = np.full(len(k), 4e-16 * len(p) + 1e-15)
            tol = tol + np.where(k == np.max(np.nonzero(np.asarray(p))[0]), 2e-12, 0)  # the total is one by definition
        else:
            tol = np.full(len(k), 2.5 * acdf(m)) + 1e-10 * mass
            if fam.startswith("binomial"):
                # rounding of q = 1 - p, to which the mass and the sum react alike but not identically
                tol = tol + mass * (64 * EPS * m.n)
        with np.errstate(all="ignore"):
            err = np.abs(inc - mass)
            if fam.startswith("binomial"):
                fac = np.array([k1_factor(m.n, int(v)) for v in k])
                adj = np.abs(inc - mass * np.exp(-fac))
                k1 = o & (fac != 0) & (err > tol) & (adj <= tol)
                for i in np.where(k1)[0][:3]:
                    if ctx.finding("K1", R.describe(sm.start + i)):
                        err[i] = adj[i]
                        ctx.known["K1"]["count"] += 0
                err = np.where(k1 & ("K1" in ctx.findings), adj, err)
            bad = o & ~(err <= tol)
            if o.any():
                ctx.margin(fam, np.nanmax((err / tol)[o]))
        ctx.count("outcomes_" + fam, int(o.sum()))
        ctx.ndistinct += int((o & (mass > 1e-9)).sum())
        for i in np.where(bad)[0][:3]:
            ctx.violate("jump of the distribution function %.17g at %d differs from the mass %.17g" % (inc[i], k[i], mass[i]),
                        request=R.describe(sm.start + i), profile="release")
        if whole and o.all():
            total = math.fsum(mass)
            t = 1e-9 + (64 * EPS * m.n if fam.startswith("binomial") else 0)
            if fam == "categorical":
                t = 2e-12
            if fam.startswith("binomial") and "K1" in ctx.findings:
                total = math.fsum(mass * np.exp(-np.array([k1_factor(m.n, int(v)) for v in k])))
            if not abs(total - 1) <= t:
                ctx.violate("masses sum to %.17g" % total, request=R.describe(sm.start), profile="release")
            ctx.count("whole_lattices")
    return dict(rule=PARAM_RULE + "intervals around random quantiles integrated by 24-point Gauss-Legendre on the observed density; "
                     "whole lattices up to n = 2000 and local jumps beyond; non-trivial: interval or outcome of visible probability",
                assumptions=["the density is analytic within the chosen intervals, so that the quadrature error is below 1e-9",
                             "accuracy of each side as in C02 to C04"])


# ------------------------------------------------------------------ C06 continuous quantile
IPROB = {"beta": 1e-8, "pert": 1e-8}  # accuracy in terms of the probability


def c06(ctx):
    b = Batch()
    plan = []
    for fam in CONT:
        if fam == "gamma":
            continue
        for p in gen.params(fam, ctx.rng, ctx.scale(3000, 7000)):
            if fam == "beta" and (min(p[:2]) < .02 or max(p[:2]) > 2e3):
                continue
            m = model(fam, p)
            u = np.unique(np.concatenate([[0.0, 1.0], gen.probabilities(ctx.rng, ctx.scale(16, 30), fam=fam)]))
            extra = [.5 - 1e-9, .5 + 1e-9]
            if fam == "triangular":
                t = (m.c - m.a) / (m.b - m.a)
                extra += [t, np.nextafter(t, 2), np.nextafter(t, -1), t * .999, t + (1 - t) * .001]
            if fam in ("beta", "pert"):  # every request costs iterations
                u = ctx.rng.choice(u, min(len(u), 24), replace=False)
                u = np.concatenate([u, [0, 1, .5]])
            u = np.unique(np.clip(np.concatenate([u, extra]), 0, 1))
            plan.append((fam, p, m, u, b.add(fam, p, "inverse", u)))
    R = b.run(cpu=20.0)
    ok = ctx.settle(R, "release")
    for fam, p, m, u, s in plan:
        obs = R.val[s]
        full = np.zeros(len(R.val), dtype=bool)

        def flag(bad, what):
            full[:] = False
            full[s] = bad & ok[s]
            ctx.judge(R, full, what, limit=4)
        flag(np.isnan(obs), "undefined quantile")
        width = (m.hi - m.lo) if math.isfinite(m.hi) and math.isfinite(m.lo) else 0.0
        slack = 4 * EPS * (abs(m.lo) + abs(m.hi) + width) if width else 0.0
        flag((obs < m.lo - slack) | (obs > m.hi + slack), "quantile outside the support")
        inner = (u > 0) & (u < 1)
        # The ends.
        for e, v in ((0.0, m.lo), (1.0, m.hi)):
            flag((u == e) & (np.abs(obs - v) > slack) if math.isfinite(v) else (u == e) & (obs != v),
                 "quantile of %g is not the end of the support" % e)
        with np.errstate(all="ignore"):
            vast = ~(np.abs(m.ppf(u)) < 1e307) if fam == "cauchy" else np.zeros(len(u), dtype=bool)
        flag(inner & ~np.isfinite(obs) & ~vast & (fam != "lognormal"), "infinite quantile of an inner probability")
        # Monotone, up to accuracy.
        with np.errstate(all="ignore"):
            if fam in IPROB:
                # in terms of the probability
                dx = 16 * EPS * (np.abs(obs) + abs(m.lo) + abs(m.hi))
                lo, hi = m.cdf_interval(obs - dx)[0], m.cdf_interval(obs + dx)[1]
                a = IPROB[fam] + acdf(m)
                bad = inner & ~((hi >= u - a) & (lo <= u + a))
                d = np.maximum(u - hi, lo - u)[ok[s] & inner]
                if len(d):
                    ctx.margin(fam, max(0.0, d.max()) / a)

                def arb(i):
                    j = i - s.start
                    x = float(obs[j])
                    zz = 16 * EPS * (abs(x) + abs(m.lo) + abs(m.hi))
                    l, h = (ref.mp_cdf(fam, p, max(m.lo, x - zz)), ref.mp_cdf(fam, p, min(m.hi, x + zz)))
                    if h >= u[j] - a and l <= u[j] + a:
                        return None
                    return "the probability of the returned point is %s" % mp.nstr((l + h) / 2, 17)
                full[:] = False
                full[s] = bad & ok[s]
                ctx.judge(R, full, "quantile is off", arbiter=arb, limit=6)
                ctx.ndistinct += int((ok[s] & inner).sum())
                ctx.count("compared_" + fam, int(ok[s].sum()))
                tolx = np.zeros(len(u))
                drop = np.zeros(len(u), dtype=bool)
                # a decrease that is more than the accuracy in probability
                run = np.maximum.accumulate(np.where(ok[s], obs, -INF))
                back = run[:-1] > obs[1:]
                if back.any():
                    gap = m.F(m.z(run[:-1])[0]) - m.F(m.z(obs[1:])[0])
                    drop[1:] = back & (gap > 2 * a)
                flag(drop, "quantile function decreasing")
                continue
            mid = m.Q(u)
            if fam == "cauchy":
                du = 16 * EPS * np.minimum(u, 1 - u)
            elif fam == "logistic":
                du = np.where(u < .5, 16 * EPS * u, 16 * EPS)
            elif fam == "triangular":
                du = 16 * EPS * np.ones(len(u))
                t = (m.c - m.a) / (m.b - m.a)
                du = np.where(u < t, 16 * EPS * u, du)
            elif fam == "uniform":
                du = 8 * EPS * u
            else:
                du = np.where(u < .5, 8 * EPS * u, 8 * EPS * np.minimum(u, 1 - u))
            zl, zh = m.Q(np.clip(u - du, 0, 1)), m.Q(np.clip(u + du, 0, 1))
            # An exponential quantile keeps its digits next to zero.
            rz = 1e-13 * np.abs(mid) + (0.0 if fam == "exponential" else 2e-15)
            zl, zh = zl - rz, zh + rz
            xm, xl, xh = m.x(mid), m.x(zl), m.x(zh)
            if fam == "lognormal":
                extra = (16 * EPS * (abs(m.mu) + m.sigma * np.abs(mid) + 1)) * xm
            elif fam == "exponential":
                extra = 16 * EPS * np.abs(xm)
            else:
                extra = 8 * EPS * (abs(getattr(m, "loc", 0.0)) + np.abs(xm) + (abs(m.lo) + abs(m.hi) if width else 0))
            tl, th = xm - xl + extra, xh - xm + extra
            tl, th = np.where(np.isnan(tl), INF, tl), np.where(np.isnan(th), INF, th)

        def exact(j):
            mp.mp.dps = 50
            q = mp.mpf(float(u[j]))
            P = [mp.mpf(v) for v in p]
            if fam in ("gaussian", "lognormal"):
                z = mp.mpf(float(mid[j]))
                for _ in range(4):  # Newton from the double-precision value
                    z -= (mp.ncdf(z) - q) / (mp.exp(-z * z / 2) / mp.sqrt(2 * mp.pi)) if z < 0 else \
                        -((mp.ncdf(-z) - (1 - q)) / (mp.exp(-z * z / 2) / mp.sqrt(2 * mp.pi)))
                x = P[0] + P[1] * z
                return x if fam == "gaussian" else mp.exp(x)
            if fam == "cauchy":
                return P[0] - P[1] / mp.tan(mp.pi * q)
            if fam == "laplace":
                return P[0] + P[1] * mp.log(2 * q) if q <= .5 else P[0] - P[1] * mp.log(2 * (1 - q))
            if fam == "logistic":
                return P[0] + P[1] * (mp.log(q) - mp.log1p(-q))
            if fam == "exponential":
                return -mp.log1p(-q) / P[0]
            if fam == "uniform":
                return P[0] + (P[1] - P[0]) * q
            a, bb, c = P
            if q <= (c - a) / (bb - a):
                return a + mp.sqrt((bb - a) * (c - a) * q)
            return bb - mp.sqrt((bb - a) * (bb - c) * (1 - q))
        sel = np.zeros(len(u), dtype=bool)
        o2 = ok.copy()
        o2[s] &= inner
        compare(ctx, R, o2, s, xm, tl, th, "quantile is off", exact=exact, key=fam, nontrivial=inner)
        run = np.maximum.accumulate(np.where(ok[s], obs, -INF))
        drop = np.zeros(len(u), dtype=bool)
        with np.errstate(all="ignore"):
            drop[1:] = run[:-1] > obs[1:] + (tl + th)[1:]
        flag(drop, "quantile function decreasing")
    return dict(rule=PARAM_RULE + "probabilities: bulk, both tails down to 1e-300, regime switches of the algorithms, zero and one; "
                     "non-trivial: probability strictly between zero and one", assumptions=ASSUME +
                ["Beta and Pert: judged by the probability of the returned point, within 1e-8"])


# ------------------------------------------------------------------ C07 discrete quantile
def newton_regime(fam, m):
    return fam.startswith("binomial") and m.n >= 1000 and m.n * m.pp * m.qq <= 80


def c07(ctx):
    b = Batch()
    plan = []
    for fam in DISC:
        ps = gen.params(fam, ctx.rng, ctx.scale(1200, 4000))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        for p in ps:
            m = model(fam, p)
            u = gen.probabilities(ctx.rng, ctx.scale(16, 30), extreme=False, fam=fam)
            # At and next to the jumps.
            k = lattice(m, ctx.rng, 6)
            k = ctx.rng.choice(k, min(len(k), ctx.scale(8, 16)), replace=False)
            F = np.clip(m.cdf(k), 0, 1)
            d = 1e-6 * np.maximum(m.pmf(k), 1e-300)
            if fam in ("categorical", "bernoulli", "bernoulli_f"):
                u = np.concatenate([u, F, np.nextafter(F, 2), np.nextafter(F, -1)])
            # 2e-3 of a jump: an expansion that is off by more than one per cent shows there.
            u = np.unique(np.clip(np.concatenate([u, F + d, F - d, F + 2000 * d, F - 2000 * d, [0.0, 1.0]]), 0, 1))
            plan.append((fam, p, m, u, b.add(fam, p, "inverse", u)))
    R = b.run(cpu=20.0)
    ok = ctx.settle(R, "release")
    for fam, p, m, u, s in plan:
        obs = R.val[s]
        o = ok[s]
        full = np.zeros(len(R.val), dtype=bool)

        def flag(bad, what, **kw):
            full[:] = False
            full[s] = bad & o
            ctx.judge(R, full, what, **kw)
        flag(~((obs >= 0) & (obs <= m.n) & (obs == np.floor(obs))), "not an outcome", limit=4)
        if fam == "categorical":
            v = np.asarray(p)
            flag(v[np.clip(np.nan_to_num(obs), 0, m.n).astype(int)] == 0, "an outcome of zero probability", limit=4)
            top, bottom = np.max(np.nonzero(v)[0]), np.min(np.nonzero(v)[0])
        else:
            top, bottom = m.n, 0
            if m.qq == 0:
                bottom = m.n
            if m.pp == 0:
                top = 0
        flag((u == 1) & (obs > m.n if fam == "categorical" else (obs != m.n) & (m.cdf(np.nan_to_num(obs)) < 1)), "quantile of one", limit=4)
        flag((u == 0) & (obs > bottom), "quantile of zero", limit=4)
        flag((obs > top) | (obs < bottom), "an outcome of zero probability", limit=4)
        a = {"categorical": 4e-16 * len(p) + 4e-16, "bernoulli": 1e-16, "bernoulli_f": 1e-16}.get(fam)
        if fam == "categorical":  # the last cumulative probability is one by definition
            a = a + 2 * np.where(u >= m.cum[-2] - 1e-11 if m.n else u >= 0, abs(float(m.cum[-1]) - 1), 0.0)
        inner = (u > 0) & (u < 1)
        with np.errstate(all="ignore"):
            if a is None:
                mass = np.maximum(m.pmf(obs), m.pmf(np.minimum(obs + 1, m.n)))
                a = 2 * acdf(m) + np.zeros(len(u))
                if m.n >= 1000 and m.n * m.pp * m.qq > 80:
                    # asymptotic expansion: a fraction of the jump, more in the far tails
                    v = m.n * m.pp * m.qq
                    w = sp.ndtri(np.clip(u, 1e-300, 1 - 1e-16))
                    far = np.maximum(np.abs(w) - 4.9, 0)
                    a = a + mass * (1e-3 + np.where(far > 0, 0.02 + 2e-3 * far ** 4, 0.0))
                elif m.n < 1000:
                    # a running sum of up to n products
                    a = a + 8 * EPS * (m.n + 1.0)
                a = np.maximum(a, 0)
            Fk, Fj = m.cdf(np.nan_to_num(obs)), m.cdf(np.nan_to_num(obs) - 1)
            low = inner & ~(Fk >= u - a)      # not enough probability at the answer
            high = inner & ~(Fj < u + a)      # the previous outcome would do
            # A zero-probability prefix or a lone outcome is judged by the support.
            if fam == "categorical":
                high &= obs > bottom

        def arb_factory(which):
            def arb(i):
                j = i - s.start
                k = int(obs[j])
                t = float(a if np.isscalar(a) else a[j])
                if which == "low":
                    v = ref.mp_dcdf(fam, p, k)
                    return None if v >= u[j] - t else "its cumulative probability is only %s" % mp.nstr(v, 17)
                v = ref.mp_dcdf(fam, p, k - 1)
                return None if v < u[j] + t else "its predecessor already has %s" % mp.nstr(v, 17)
            return arb

        def known_low(i):
            # K2: Newton's method stops within half a step, so that the answer is
            # one too small: 0 < u - F(k) < 0.6 mass(k), and u <= F(k + 1).
            if not newton_regime(fam, m):
                return None
            j = i - s.start
            k = int(obs[j])
            d = mp.mpf(float(u[j])) - ref.mp_dcdf(fam, p, k)
            near = 0 < d < mp.mpf("0.6") * ref.mp_pmf(fam, p, k) + 1e-8
            return "K2" if near and ref.mp_dcdf(fam, p, k + 1) >= u[j] - 2 * acdf(m) - 1e-12 else None
        flag(low, "quantile too small", arbiter=arb_factory("low"), known=known_low, limit=40)
        flag(high, "quantile too large", arbiter=arb_factory("high"), limit=10)
        run = np.maximum.accumulate(np.where(o, obs, -1))
        drop = np.zeros(len(u), dtype=bool)
        drop[1:] = run[:-1] > obs[1:]
        if drop.any():
            # The order of two answers may only flip where both are acceptable.
            prev = run[np.maximum(np.arange(len(u)) - 1, 0)]
            with np.errstate(all="ignore"):
                aa = a if np.isscalar(a) else a
                drop &= (m.cdf(prev - 1) > u + aa) | (m.cdf(obs) < u - aa)
            flag(drop, "quantile function decreasing", known=known_low, limit=4)
        ctx.ndistinct += int((o & inner).sum())
        ctx.count("compared_" + fam, int(o.sum()))
        if newton_regime(fam, m):
            ctx.count("compared_newton_regime", int(o.sum()))
        if len(ctx.samples) < 8 and ctx.rng.random() < .02:
            j = len(u) // 2
            ctx.sample(family=fam, params=list(p)[:8], p=float(u[j]), observed=float(obs[j]))
    return dict(rule=PARAM_RULE + "probabilities: bulk, tails, and on both sides of jumps of the reference distribution function; "
                     "non-trivial: probability strictly between zero and one", assumptions=ASSUME +
                ["an answer is accepted when the probability lies within the accuracy of the distribution function of a jump; for "
                 "n >= 1000 and variance above 80 within 0.1% of the jump (asymptotic expansion, checked by the library next to jumps), 2% and more beyond five deviations"])
