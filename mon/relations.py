"""Metamorphic monitors: relations between executions, without reference values."""
import math
from fractions import Fraction as Fr
import numpy as np
import gen
from gen import CONT, DISC, INF, EPS, lu
from numeric import PARAM_RULE, k1_factor
from vlib import Batch, OK

STATS = ["mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "median"]


def dy(x, bits=20):
    """Round to few significant bits, so that affine maps are exact."""
    if x == 0 or not math.isfinite(x):
        return x
    m, e = math.frexp(x)
    return math.ldexp(round(m * 2 ** bits), e - bits)


class Relations:
    def __init__(self, ctx):
        self.ctx, self.b, self.plan = ctx, Batch(), []

    def q(self, fam, p, op, args=(0.0,)):
        return self.b.add(fam, [float(v) for v in p], op, args)

    def equal(self, label, left, right, f=None, rel=1e-12, tol=0.0, multi=False, kind=None, width=0.0):
        """left == f(right), where f maps observed values (array) to expected ones."""
        self.plan.append((label, left, right, f, rel, tol, multi, kind or label))

    def run(self, profile="release", cpu=20.0):
        ctx = self.ctx
        R = self.b.run(profile, cpu=cpu)
        ok = ctx.settle(R, profile)
        for label, left, right, f, rel, tol, multi, kind in self.plan:
            o = ok[left] & ok[right]
            if multi:
                for i, j in zip(range(left.start, left.stop), range(right.start, right.stop)):
                    if not (ok[i] and ok[j]):
                        continue
                    a, b = R.list(i), R.list(j)
                    e = f(b) if f else b
                    ctx.count(kind)
                    ctx.ndistinct += 1
                    good = len(a) == len(e) and self.close(a, np.asarray(e, dtype=float), rel, tol).all()
                    if not good:
                        ctx.violate("%s: expected %s" % (label, [float(v) for v in e][:8]), request=R.describe(i),
                                    partner=R.describe(j), profile=profile)
                continue
            a, b = R.val[left], R.val[right]
            e = f(b) if f else b
            with np.errstate(all="ignore"):
                good = self.close(a, e, rel, tol)
                if kind.startswith("pdf"):  # one side may underflow where the other does not
                    tiny = 1e-290
                    good |= (np.abs(b) < tiny) & (np.abs(a) <= abs(f(tiny) if f else tiny))
                err = np.abs(a - e) / (rel * np.abs(e) + tol)
            bad = o & ~good
            ctx.count(kind, int(o.sum()))
            ctx.ndistinct += int((o & np.isfinite(a) & (a != 0)).sum())
            if (o & np.isfinite(err)).any():
                ctx.margin(kind, err[o & np.isfinite(err)].max())
            if len(ctx.samples) < 8 and ctx.rng.random() < .004 and o.any():
                k = int(np.argmax(o))
                ctx.sample(relation=label, left=R.describe(left.start + k), right=R.describe(right.start + k))
            for k in np.where(bad)[0][:2]:
                ctx.violate("%s: expected %.17g" % (label, np.broadcast_to(e, a.shape)[k]), request=R.describe(left.start + k),
                            partner=R.describe(right.start + k), profile=profile)
        return R

    @staticmethod
    def close(a, e, rel, tol):
        with np.errstate(all="ignore"):
            return (a == e) | (np.isnan(a) & np.isnan(e)) | (np.abs(a - e) <= rel * np.abs(e) + tol) | \
                ((np.abs(a) < 1e-290) & (np.abs(e) < 1e-290))


# ------------------------------------------------------------------ C18
def transformed(fam, p, s, t):
    """Parameters of s X + t, or None if they are not exactly representable."""
    def ex(v):
        f = Fr(v) * Fr(s) + Fr(t)
        return float(f) if Fr(float(f)) == f else None
    if fam in ("gaussian", "cauchy", "laplace", "logistic"):
        q = (ex(p[0]), p[1] * s)
    elif fam in ("uniform", "triangular", "pert"):
        q = tuple(ex(v) for v in p)
    elif fam == "beta":
        q = (p[0], p[1], ex(p[2]), ex(p[3]))
    elif fam == "exponential":
        q = (p[0] / s,) if t == 0 else None
    elif fam == "gamma":
        q = (p[0], p[1] * s) if t == 0 else None
    else:
        return None
    return None if q is None or any(v is None for v in q) else q


def base(fam, rng):
    v = gen.literal(fam, rng)
    if .05 <= v <= 20 and rng.random() < .15:  # a number from the source
        if fam in gen.LOCSCALE:
            return (dy(rng.uniform(-4, 4)), dy(v)) if rng.random() < .5 else (dy(rng.choice([-1, 1]) * v), dy(lu(rng, .05, 20)))
        if fam in ("exponential", "gamma"):
            return (dy(v),) if fam == "exponential" else (v, dy(lu(rng, .05, 20)))
        if fam == "beta":
            u = float(lu(rng, .1, 50))
            return ((v, u) if rng.random() < .5 else (u, v)) + (0.0, 1.0)
    if fam in ("gaussian", "cauchy", "laplace", "logistic"):
        return (dy(rng.uniform(-4, 4)), dy(lu(rng, .05, 20)))
    if fam == "exponential":
        return (dy(lu(rng, .05, 20)),)
    if fam == "gamma":
        return (float(rng.choice([lu(rng, .05, 1), lu(rng, 1, 200), rng.integers(1, 9)])), dy(lu(rng, .05, 20)))
    while True:
        a = dy(rng.uniform(-4, 4), 12)
        b = dy(a + lu(rng, .1, 8), 12)
        c = dy(a + (b - a) * rng.random(), 14)
        if fam == "uniform" and a < b:
            return (a, b)
        if fam == "beta" and a < b:
            return gen.shapes(rng, .1, 200, 1e3) + (a, b)
        if fam == "triangular" and a <= c <= b and a < b:
            return (a, b, float(rng.choice([a, b, c, c, c])))
        if fam == "pert" and a < c < b and .005 < (c - a) / (b - a) < .995:
            return (a, c, b)


def c18(ctx):
    r = Relations(ctx)
    n = ctx.scale(1200, 4000)
    from numeric import model
    for fam in CONT:
        if fam == "lognormal":
            continue
        for _ in range(n):
            p = base(fam, ctx.rng)
            m = model(fam, p)
            s = 2.0 ** int(ctx.rng.integers(-30, 31) if ctx.rng.random() < .5 else ctx.rng.integers(-400, 401))
            t = 0.0 if fam in ("exponential", "gamma") or ctx.rng.random() < .3 else dy(float(ctx.rng.uniform(-1000, 1000)) * s, 12)
            q = transformed(fam, p, s, t)
            if q is None:
                continue
            ctx.count("maps_" + fam)
            off = abs(t) / s
            # points with few bits, so that the map is exact
            u = gen.probabilities(ctx.rng, 10, extreme=False, fam=fam)
            with np.errstate(all="ignore"):
                x = m.ppf(u)
                if math.isfinite(m.hi):
                    x = np.concatenate([x, [m.lo, m.hi, m.lo - 1, m.hi + 1, getattr(m, "c", m.lo)]])
                elif math.isfinite(m.lo):
                    x = np.concatenate([x, [m.lo, m.lo - 1, 1e3]])
                else:
                    x = np.concatenate([x, m.x(np.array([0, 50., -50, 6.5, -6.5]))])
            x = np.unique([dy(float(v), 24) for v in x if math.isfinite(v)])
            y = np.array([v for v in x if Fr(float(Fr(v) * Fr(s) + Fr(t))) == Fr(v) * Fr(s) + Fr(t)])
            x = y
            if len(x) == 0:
                continue
            y = x * s + t
            L = "%s under x -> %g x + %g: " % (fam, s, t)
            bounded = math.isfinite(m.hi) and math.isfinite(m.lo)
            r.equal(L + "distribution", r.q(fam, q, "cdf", y), r.q(fam, p, "cdf", x), None, 1e-12, 1e-14 if not fam in ("gamma", "beta", "pert") else 1e-12,
                    kind="cdf_" + fam)
            r.equal(L + "density", r.q(fam, q, "pdf", y), r.q(fam, p, "pdf", x), lambda v, s=s: v / s,
                    1e-11 + (16 * EPS * abs(p[0] - 1) * abs(math.log(s)) if fam == "gamma" else 0), kind="pdf_" + fam)
            size = (abs(m.lo) + abs(m.hi)) if bounded else abs(p[0]) if fam in ("gaussian", "cauchy", "laplace", "logistic") else 0.0
            spread = (m.hi - m.lo) if bounded else p[1] if len(p) > 1 else 1 / p[0]
            tol = 16 * EPS * (size * s + abs(t))
            if fam != "gamma":
                a = 1e-9 * spread * s if fam in ("beta", "pert") else 0.0
                uu = np.concatenate([u, [0.0, 1.0]])
                r.equal(L + "inverse", r.q(fam, q, "inverse", uu), r.q(fam, p, "inverse", uu), lambda v, s=s, t=t: s * v + t, 1e-12, tol + a,
                        kind="inverse_" + fam)
                r.equal(L + "median", r.q(fam, q, "median"), r.q(fam, p, "median"), lambda v, s=s, t=t: s * v + t, 1e-12, tol + a, kind="median_" + fam)
            if fam != "uniform":
                r.equal(L + "modes", r.q(fam, q, "modes"), r.q(fam, p, "modes"), lambda v, s=s, t=t: s * np.asarray(v) + t, 1e-12, tol, multi=True,
                        kind="modes_" + fam)
            if fam != "cauchy":
                r.equal(L + "mean", r.q(fam, q, "mean"), r.q(fam, p, "mean"), lambda v, s=s, t=t: s * v + t, 1e-12, tol, kind="mean_" + fam)
                k = 1e-11 if fam != "pert" else 1e-10
                r.equal(L + "variance", r.q(fam, q, "variance"), r.q(fam, p, "variance"), lambda v, s=s: s * s * v, k, kind="variance_" + fam)
                r.equal(L + "deviation", r.q(fam, q, "deviation"), r.q(fam, p, "deviation"), lambda v, s=s: s * v, k, kind="deviation_" + fam)
                r.equal(L + "skewness", r.q(fam, q, "skewness"), r.q(fam, p, "skewness"), None, 1e-10, 1e-12, kind="skewness_" + fam)
                r.equal(L + "kurtosis", r.q(fam, q, "kurtosis"), r.q(fam, p, "kurtosis"), None, 1e-10, 1e-12, kind="kurtosis_" + fam)
            r.equal(L + "entropy", r.q(fam, q, "entropy"), r.q(fam, p, "entropy"), lambda v, s=s: v + math.log(s), 1e-12, 1e-11, kind="entropy_" + fam)
            seeds = ctx.rng.integers(0, 2 ** 50, 2).astype(float)
            r.equal(L + "samples", r.q(fam, q, "sample", seeds), r.q(fam, p, "sample", seeds), lambda v, s=s, t=t: s * np.asarray(v) + t, 1e-12, tol,
                    multi=True, kind="samples_" + fam)
    # Lognormal: a shift of the logarithm is a scale.
    for _ in range(n):
        mu, sigma = dy(ctx.rng.uniform(-4, 4)), dy(lu(ctx.rng, .1, 2))
        k = int(ctx.rng.integers(-20, 21) if ctx.rng.random() < .5 else ctx.rng.integers(-300, 301))
        t = k * math.log(2.0)
        p, q = (mu, sigma), (mu + t, sigma)
        m = model("lognormal", p)
        u = gen.probabilities(ctx.rng, 8, extreme=False)
        x = np.concatenate([m.ppf(u), [0.0, -1.0]])
        s = 2.0 ** k
        L = "lognormal under x -> %g x: " % s
        loose = 1e-13 * (1 + abs(t)) * 20 / sigma
        r.equal(L + "distribution", r.q("lognormal", q, "cdf", s * x), r.q("lognormal", p, "cdf", x), None, 1e-12, loose, kind="cdf_lognormal")
        r.equal(L + "density", r.q("lognormal", q, "pdf", s * x), r.q("lognormal", p, "pdf", x), lambda v, s=s: v / s, 100 * loose, kind="pdf_lognormal")
        r.equal(L + "inverse", r.q("lognormal", q, "inverse", u), r.q("lognormal", p, "inverse", u), lambda v, s=s: v * s, 1e-12, kind="inverse_lognormal")
        for op in ("mean", "median", "deviation"):
            r.equal(L + op, r.q("lognormal", q, op), r.q("lognormal", p, op), lambda v, s=s: v * s, 1e-12, kind=op + "_lognormal")
        r.equal(L + "variance", r.q("lognormal", q, "variance"), r.q("lognormal", p, "variance"), lambda v, s=s: v * s * s, 1e-12, kind="variance_lognormal")
        for op in ("skewness", "kurtosis"):
            r.equal(L + op, r.q("lognormal", q, op), r.q("lognormal", p, op), None, 1e-12, kind=op + "_lognormal")
        r.equal(L + "entropy", r.q("lognormal", q, "entropy"), r.q("lognormal", p, "entropy"), lambda v, t=t: v + t, 1e-12, 1e-12, kind="entropy_lognormal")
        r.equal(L + "modes", r.q("lognormal", q, "modes"), r.q("lognormal", p, "modes"), lambda v, s=s: s * np.asarray(v), 1e-12, multi=True, kind="modes_lognormal")
        sd = ctx.rng.integers(0, 2 ** 50, 2).astype(float)
        r.equal(L + "samples", r.q("lognormal", q, "sample", sd), r.q("lognormal", p, "sample", sd), lambda v, s=s: s * np.asarray(v), 1e-12, multi=True,
                kind="samples_lognormal")
    r.run()
    return dict(rule="random parameters with few significant bits and affine maps x -> 2^k x + t with exact images; every query on both sides; non-trivial: a "
                     "finite non-zero observation compared with its partner", assumptions=
                ["tolerance 1e-12 relative (1e-11 for densities and variances, 1e-10 for higher moments), a few ulp of the location",
                 "Beta and Pert quantiles to 1e-9 of the width"])


# ------------------------------------------------------------------ C19
def c19(ctx):
    r = Relations(ctx)
    rng = ctx.rng
    n = ctx.scale(1200, 4000)
    from numeric import model, acdf

    def same(label, A, pa, B, pb, ops, x=None, u=None, shift=0.0, tol=None, rel=1e-11, width=1.0):
        """A with pa is B with pb displaced by `shift`."""
        tol = tol or {}
        for op in ops:
            t = tol.get(op, 1e-13)
            if op in ("cdf", "pdf"):
                r.equal("%s: %s" % (label, op), r.q(A, pa, op, np.asarray(x) + shift), r.q(B, pb, op, x), None, rel, t, kind=label + " " + op)
            elif op == "inverse":
                r.equal("%s: %s" % (label, op), r.q(A, pa, op, u), r.q(B, pb, op, u), lambda v: v + shift, rel, t, kind=label + " " + op)
            elif op in ("modes",):
                r.equal("%s: %s" % (label, op), r.q(A, pa, op), r.q(B, pb, op), lambda v: np.asarray(v) + shift, rel, t, multi=True, kind=label + " " + op)
            else:
                f = (lambda v: v + shift) if op in ("mean", "median") else None
                r.equal("%s: %s" % (label, op), r.q(A, pa, op), r.q(B, pb, op), f, rel, t, kind=label + " " + op)

    def mirror(label, A, pa, B, pb, c, ops, x=None, u=None, tol=None, rel=1e-11, lattice=False):
        """A with pa is c minus B with pb."""
        tol = tol or {}
        for op in ops:
            t = tol.get(op, 1e-13)
            if op == "cdf":
                z = c - np.asarray(x) - (1.0 if lattice else 0.0)
                r.equal("%s: %s" % (label, op), r.q(A, pa, op, z), r.q(B, pb, op, x), lambda v: 1 - v, rel, t, kind=label + " " + op)
            elif op == "pdf":
                r.equal("%s: %s" % (label, op), r.q(A, pa, op, c - np.asarray(x)), r.q(B, pb, op, x), None, rel, t, kind=label + " " + op)
            elif op == "inverse":
                r.equal("%s: %s" % (label, op), r.q(A, pa, op, 1 - np.asarray(u)), r.q(B, pb, op, u), lambda v: c - v, rel, t, kind=label + " " + op)
            elif op == "modes":
                r.equal("%s: %s" % (label, op), r.q(A, pa, op), r.q(B, pb, op), lambda v: (c - np.asarray(v))[::-1], rel, t, multi=True, kind=label + " " + op)
            else:
                f = (lambda v: c - v) if op in ("mean", "median") else (lambda v: -v) if op == "skewness" else None
                r.equal("%s: %s" % (label, op), r.q(A, pa, op), r.q(B, pb, op), f, rel, t, kind=label + " " + op)

    MOM = ["mean", "variance", "deviation", "skewness", "kurtosis", "entropy"]
    dyadic_u = lambda k=8: np.unique(np.concatenate([np.round(rng.random(k) * 2 ** 20) / 2 ** 20, [.5, .25, .75, 2.0 ** -20, 1 - 2.0 ** -20, .0, 1.0,
                                                                                           .0625, .9375]]))
    for _ in range(n):
        # -- Pert and its Beta: an interval of width 2^k makes the shapes exact
        Z = 1.0 if rng.random() < .5 else 2.0 ** int(rng.integers(-60, 61) if rng.random() < .5 else rng.integers(-400, 401))
        w = 2.0 ** int(rng.integers(-10, 11)) * Z
        a = dy(float(rng.uniform(-8, 8)) * w, 12)
        f = float(rng.integers(1, 4096)) / 4096
        if .002 < f < .998:
            pp, bp = (a, a + w * f, a + w), (1 + 4 * f, 5 - 4 * f, a, a + w)
            x = a + w * np.unique(np.concatenate([np.round(rng.random(8) * 2 ** 20) / 2 ** 20, [0, 1, -.5, 1.5, f]]))
            u = gen.probabilities(rng, 8, extreme=False)
            ops = ["cdf", "pdf", "inverse", "modes"] + MOM
            same("Pert is a Beta", "pert", pp, "beta", bp, ops, x, u, tol=dict(cdf=1e-12, inverse=1e-9 * w + 1e-15 * abs(a), pdf=1e-13 / w, modes=1e-14 * (abs(a) + w),
                                                                              mean=1e-14 * (abs(a) + w), skewness=1e-11, kurtosis=1e-10, entropy=1e-7))
            mirror("mirrored Pert", "pert", (-pp[2], -pp[1], -pp[0]), "pert", pp, 0.0, ops, x, dyadic_u(),
                   tol=dict(cdf=1e-11, inverse=1e-6 * w, pdf=1e-13 / w, mean=1e-14 * (abs(a) + w), skewness=1e-11, kurtosis=1e-10, entropy=1e-11))
        # -- Beta(1, 1) and Uniform
        a, b = dy(float(rng.uniform(-9, 9))), 0.0
        b = dy(a + float(lu(rng, .01, 100)))
        a, b = a * Z, b * Z
        x = np.concatenate([a + (b - a) * rng.random(6), [a, b, 2 * a - b, 2 * b - a]])
        u = dyadic_u()
        t = 1e-14 * (abs(a) + abs(b))
        same("Beta(1, 1) is Uniform", "beta", (1., 1., a, b), "uniform", (a, b), ["cdf", "pdf", "inverse", "median"] + MOM, x, u,
             tol=dict(cdf=1e-12, inverse=1e-8 * (b - a) + t, mean=t, median=t, pdf=0., skewness=1e-12, kurtosis=1e-12, entropy=1e-7 + t))
        # -- Triangular with the mode at an end, and Beta
        for c, sh in ((b, (2., 1.)), (a, (1., 2.))):
            same("Triangular is a Beta", "triangular", (a, b, c), "beta", sh + (a, b), ["cdf", "pdf", "inverse", "modes"] + MOM, x[(x > a) & (x < b)], u,
                 tol=dict(cdf=1e-12, inverse=1e-7 * (b - a) + t, mean=t, modes=t, pdf=1e-13 / (b - a), skewness=1e-11, kurtosis=1e-11, entropy=1e-7), rel=1e-9)
        # -- Beta reflected
        al, be = gen.shapes(rng, .1, 200, 1e3)
        al, be = dy(al), dy(be)
        xb = np.unique(np.concatenate([np.round(rng.random(8) * 2 ** 20) / 2 ** 20, [.5, .0, 1.0, -1., 2.]]))
        mirror("mirrored Beta", "beta", (be, al, 0., 1.), "beta", (al, be, 0., 1.), 1.0, ["cdf", "pdf", "modes", "median"] + MOM, xb, None,
               tol=dict(cdf=1e-10, mean=1e-14, median=1e-6, modes=1e-12, skewness=1e-12, kurtosis=1e-11, entropy=1e-9), rel=1e-9)
        # -- Triangular and Uniform reflected
        c = float(rng.choice([a, b, dy(a + (b - a) * rng.random(), 24)]))
        if a <= c <= b:
            mirror("mirrored Triangular", "triangular", (-b, -a, -c), "triangular", (a, b, c), 0.0, ["cdf", "pdf", "inverse", "modes", "median"] + MOM, x, u,
                   tol=dict(cdf=1e-13, inverse=1e-13 * (b - a) + t, mean=t, median=t + 1e-13 * (b - a), skewness=1e-12, kurtosis=1e-12, entropy=1e-12))
        mirror("mirrored Uniform", "uniform", (-b, -a), "uniform", (a, b), 0.0, ["cdf", "pdf", "inverse", "median"] + MOM, x, u,
               tol=dict(cdf=1e-14, inverse=t, mean=t, median=t))
        # -- Gamma(1, t) and Exponential(1 / t)
        th = 2.0 ** int(rng.integers(-20, 21))
        x = np.concatenate([th * rng.exponential(1, 8), th * lu(rng, 1e-6, 1, 3), [0., -1., th * 40]])
        same("Gamma(1, t) is Exponential", "gamma", (1., th), "exponential", (1 / th,), ["cdf", "modes"] + MOM, x, None,
             tol=dict(cdf=1e-11, entropy=1e-8 , skewness=0., kurtosis=0.))
        r.equal("Gamma(1, t) is Exponential: pdf", r.q("gamma", (1., th), "pdf", x[x > 0]), r.q("exponential", (1 / th,), "pdf", x[x > 0]), None, 1e-11,
                kind="Gamma(1, t) is Exponential pdf")
        # -- Gamma(1/2, 2 s^2) is the square of a Gaussian
        s = 2.0 ** int(rng.integers(-5, 6))
        z = np.abs(rng.normal(0, 1, 6)) * s
        z = np.array([dy(float(v), 24) for v in z])
        r.equal("Gamma(1/2) is a squared Gaussian", r.q("gamma", (.5, 2 * s * s), "cdf", z * z), r.q("gaussian", (0., s), "cdf", z), lambda v: 2 * v - 1, 1e-11, 1e-9,
                kind="Gamma(1/2) is a squared Gaussian")
        # -- Lognormal and Gaussian
        mu, sg = dy(float(rng.uniform(-4, 4))), dy(float(lu(rng, .1, 2)))
        lx = np.array([dy(float(v), 24) for v in mu + sg * np.concatenate([rng.normal(0, 1, 6), rng.uniform(-6, 6, 3)])])
        k = 1e-13 * (10 + abs(mu)) / sg
        r.equal("Lognormal is exp Gaussian: cdf", r.q("lognormal", (mu, sg), "cdf", np.exp(lx)), r.q("gaussian", (mu, sg), "cdf", lx), None, 1e-12, k,
                kind="Lognormal is exp Gaussian cdf")
        r.equal("Lognormal is exp Gaussian: pdf", r.q("lognormal", (mu, sg), "pdf", np.exp(lx)), r.q("gaussian", (mu, sg), "pdf", lx),
                lambda v, lx=lx: v / np.exp(lx), 100 * k, kind="Lognormal is exp Gaussian pdf")
        u = gen.probabilities(rng, 8)
        r.equal("Lognormal is exp Gaussian: inverse", r.q("lognormal", (mu, sg), "inverse", u), r.q("gaussian", (mu, sg), "inverse", u), np.exp, 1e-12,
                kind="Lognormal is exp Gaussian inverse")
        r.equal("Lognormal is exp Gaussian: median", r.q("lognormal", (mu, sg), "median"), r.q("gaussian", (mu, sg), "median"), np.exp, 1e-12,
                kind="Lognormal is exp Gaussian median")
        r.equal("Lognormal is exp Gaussian: entropy", r.q("lognormal", (mu, sg), "entropy"), r.q("gaussian", (mu, sg), "entropy"), lambda v, mu=mu: v + mu, 1e-12, 1e-13,
                kind="Lognormal is exp Gaussian entropy")
        # -- Laplace and Exponential
        bb = dy(float(lu(rng, .05, 20))) * Z
        mu = mu * Z
        d = np.array([dy(float(v), 24) for v in bb * rng.exponential(2, 6)])
        r.equal("|Laplace| is Exponential: upper", r.q("laplace", (mu, bb), "cdf", mu + d), r.q("exponential", (1 / bb,), "cdf", d), lambda v: .5 + .5 * v, 1e-13, 1e-14 * (1 + abs(mu) / bb),
                kind="|Laplace| is Exponential")
        r.equal("|Laplace| is Exponential: lower", r.q("laplace", (mu, bb), "cdf", mu - d), r.q("exponential", (1 / bb,), "cdf", d), lambda v: .5 - .5 * v, 1e-13, 1e-14 * (1 + abs(mu) / bb),
                kind="|Laplace| is Exponential")
        # -- symmetric families about their location
        for fam in ("gaussian", "cauchy", "laplace", "logistic"):
            p = (mu, bb)
            xs = np.array([dy(float(v), 20) for v in bb * np.concatenate([rng.normal(0, 2, 6), [0, 6., 40]])])
            xs = np.array([v for v in xs if mu + v - mu == v and mu - v - mu == -v])
            if len(xs):
                r.equal(fam + " is symmetric: cdf", r.q(fam, p, "cdf", mu + xs), r.q(fam, p, "cdf", mu - xs), lambda v: 1 - v, 1e-13, 4e-15, kind="symmetric cdf")
                r.equal(fam + " is symmetric: pdf", r.q(fam, p, "pdf", mu + xs), r.q(fam, p, "pdf", mu - xs), None, 1e-13, kind="symmetric pdf")
            u = dyadic_u()
            u = u[(u > 0) & (u < 1)]
            r.equal(fam + " is symmetric: inverse", r.q(fam, p, "inverse", u), r.q(fam, p, "inverse", 1 - u), lambda v, mu=mu: 2 * mu - v, 1e-12,
                    1e-13 * (abs(mu) + bb), kind="symmetric inverse")
            for op in ("median", "mean"):
                if fam != "cauchy":
                    r.equal(fam + " is symmetric: " + op, r.q(fam, p, op), r.q(fam, p, "modes"), None, 0., kind="symmetric mean median mode")
        # -- Bernoulli, Binomial(1, p), Categorical(1 - p, p)
        pr = float(rng.integers(1, 2 ** 16)) / 2 ** 16
        if rng.random() < .4:  # next to one half, zero, or one, with an exact complement
            pr = float(rng.choice([0, .5, .5, 1])) + float(rng.choice([-1, 1])) * float(rng.choice([1, 2, 3, 8, int(lu(rng, 1, 2 ** 40))])) / 2 ** 53
            pr = pr if 0 < pr < 1 else .5
        u = np.unique(np.concatenate([rng.random(6), [1 - pr, np.nextafter(1 - pr, 2), np.nextafter(1 - pr, 0), 0.5]]))
        u = u[(u > 0) & (u < 1)]
        k = np.array([0., 1.])
        x = np.array([-1., -.5, 0., .5, 1., 1.5, 9.])
        for B, pb in (("categorical", (1 - pr, pr)), ("bernoulli_f", (1 - pr,)), ("binomial", (1., pr)), ("binomial_f", (1., 1 - pr))):
            L = "Bernoulli is " + B
            same(L, "bernoulli", (pr,), B, pb, ["cdf"] + MOM, x, tol=dict(cdf=1e-12, entropy=1e-12, skewness=1e-12, kurtosis=1e-11))
            same(L, "bernoulli", (pr,), B, pb, ["pdf", "modes"], k, tol=dict(pdf=1e-13))
            if B == "categorical" or B == "bernoulli_f":
                same(L, "bernoulli", (pr,), B, pb, ["inverse", "median"], None, u)
            else:
                v = u[np.abs(u - (1 - pr)) > 1e-9]
                same(L, "bernoulli", (pr,), B, pb, ["inverse"], None, v)
        # -- Binomial: successes and failures
        nn = int(rng.choice([rng.integers(1, 60), rng.integers(60, 900), rng.integers(900, 3000), int(lu(rng, 3000, 1e6))]))
        k = np.unique(np.clip(np.concatenate([rng.integers(0, nn + 1, 6), np.round(nn * pr + math.sqrt(nn * pr * (1 - pr)) * rng.normal(0, 1.5, 8)), [0, nn]]), 0, nn)).astype(float)
        tt = 1e-9 + 4 * EPS * nn * math.log(nn + 2.)
        mirror("mirrored Binomial", "binomial", (float(nn), 1 - pr), "binomial", (float(nn), pr), float(nn), ["pdf", "modes"] + MOM, k, None,
               tol=dict(entropy=1e-9 + (0 if nn * pr * (1 - pr) < 80 else .01 / (nn * pr * (1 - pr))), pdf=1e-300, skewness=1e-12, kurtosis=1e-11, mean=1e-12 * nn), rel=1e-10)
        mirror("mirrored Binomial", "binomial", (float(nn), 1 - pr), "binomial", (float(nn), pr), float(nn), ["cdf"], k[k < nn], None, tol=dict(cdf=tt), lattice=True)
        same("Binomial with failure", "binomial_f", (float(nn), 1 - pr), "binomial", (float(nn), pr), ["pdf", "cdf", "modes", "median"] + MOM, k, None,
             tol=dict(pdf=1e-300, cdf=tt, entropy=1e-9), rel=1e-11)
        # -- Binomial and Beta: P(X <= k) = 1 - I_p(k + 1, n - k)
        kk = k[k < nn]
        for v in kk[:4]:
            if 200000 > nn and min(v + 1, nn - v) >= .02:
                r.equal("Binomial tail is a Beta", r.q("binomial", (float(nn), pr), "cdf", [v]), r.q("beta", (v + 1, nn - v, 0., 1.), "cdf", [pr]), lambda w: 1 - w, 1e-10, 2 * tt,
                        kind="Binomial tail is a Beta")
        # -- Categorical: zero probabilities before and after
        pv = gen.probability_vector(rng)
        za, zb = int(rng.integers(0, 4)), int(rng.integers(0, 4))
        qv = [0.0] * za + list(pv) + [0.0] * zb
        K = len(pv)
        k = np.arange(K, dtype=float)
        x = np.unique(np.concatenate([k, k + .5, [-1.]]))
        u = np.unique(np.concatenate([rng.random(8), np.cumsum(pv)]))
        u = u[(u > 1e-12) & (u < 1 - 1e-12)]
        mm = float(np.dot(np.arange(K), pv))
        vv = float(np.dot((np.arange(K) - mm) ** 2, pv))
        L = "Categorical with impossible outcomes"
        same(L, "categorical", qv, "categorical", pv, ["cdf", "inverse"], x, u, shift=float(za), tol=dict(cdf=1e-15 * K, inverse=0.), rel=0.)
        same(L, "categorical", qv, "categorical", pv, ["pdf"], k, None, shift=float(za), tol=dict(pdf=0.), rel=0.)
        ops = ["mean", "entropy", "variance", "deviation", "modes"] + (["skewness", "kurtosis"] if vv > 1e-3 else [])
        big = (K + za) ** 2 * 1e-14
        same(L, "categorical", qv, "categorical", pv, ops, None, None, shift=float(za), tol=dict(mean=1e-13 * (K + za), variance=big, deviation=math.sqrt(big), modes=0.,
                                                                                        skewness=1e-9, kurtosis=1e-8), rel=1e-9)
        # -- Categorical reversed
        rv = list(pv)[::-1]
        mirror("mirrored Categorical", "categorical", rv, "categorical", pv, K - 1.0, ["pdf", "modes"], k, None, tol=dict(pdf=0.), rel=0.)
        mirror("mirrored Categorical", "categorical", rv, "categorical", pv, K - 1.0, ["cdf"], k[:-1], None, tol=dict(cdf=1e-14 * K), lattice=True)
        mirror("mirrored Categorical", "categorical", rv, "categorical", pv, K - 1.0, ["mean", "entropy", "variance"] + (["skewness", "kurtosis"] if vv > 1e-3 else []),
               None, None, tol=dict(mean=1e-13 * K, variance=K * K * 1e-14, skewness=1e-9, kurtosis=1e-8), rel=1e-9)
        # -- Cauchy(0, 1): 1 / X has the same law
        x = np.array([dy(float(v), 24) for v in lu(rng, 1e-6, 1e6, 5)])
        r.equal("1 / Cauchy is Cauchy", r.q("cauchy", (0., 1.), "cdf", x), r.q("cauchy", (0., 1.), "cdf", 1 / x), lambda v: 1.5 - v, 1e-13, 1e-15, kind="1 / Cauchy is Cauchy")
    r.run()
    return dict(rule="random pairs of related distributions with parameters chosen so that the relation is exact in floating point, all queries on both sides; non-trivial: a "
                     "finite non-zero observation compared with its partner", assumptions=["each relation is a theorem", "tolerance: the sum of the accuracies of both sides (C02 to C12)"])


# ------------------------------------------------------------------ C20
NEW = {"bernoulli": ["p", "q"]}


def expected_params(fam, p):
    """(values, tolerance per value) of the accessors in the order of dist.rs."""
    if fam == "bernoulli":
        return [p[0], 1 - p[0]], [0, 2e-16]
    if fam == "bernoulli_f":
        return [1 - p[0], p[0]], [2e-16, 0]
    if fam == "binomial":
        return [p[0], p[1], 1 - p[1]], [0, 0, 2e-16]
    if fam == "binomial_f":
        return [p[0], 1 - p[1], p[1]], [0, 2e-16, 0]
    if fam == "categorical":
        return [float(len(p))] + list(p), [0] * (len(p) + 1)
    if fam == "pert":
        a, b, c = (Fr(float(v)) for v in p)
        al, be = float(1 + 4 * (b - a) / (c - a)), float(1 + 4 * (c - b) / (c - a))
        return list(p) + [al, be], [0, 0, 0, 16 * EPS * al, 16 * EPS * be]
    return list(p), [0] * len(p)


DEFAULTS = {"gaussian_default": ("gaussian", (0., 1.)), "logistic_default": ("logistic", (0., 1.)), "lognormal_default": ("lognormal", (0., 1.)),
            "uniform_default": ("uniform", (0., 1.))}
BOUNDARY = {
    "bernoulli": [(5e-324,), (2.0 ** -1022,), (1 - 2.0 ** -53,)], "bernoulli_f": [(5e-324,), (1 - 2.0 ** -53,)],
    "beta": [(5e-324, 1., 0., 1.), (1e308, 1e308, 0., 1.), (1., 1., -1e308, 1e307), (2., 3., 1., 1 + EPS), (2., 3., -5e-324, 0.)],
    "binomial": gen.EDGE_BINOMIAL + [(9007199254740992.0, .5), (1.0, 5e-324)], "binomial_f": gen.EDGE_BINOMIAL,
    "categorical": [(1.,), (0., 1.), (1., 0., 0.), (.5, .5 + 1e-13), tuple([0.] * 99 + [1.])],
    "cauchy": [(-1e308, 5e-324), (0., 1.7e308)], "exponential": [(5e-324,), (1.7e308,)], "gamma": [(5e-324, 5e-324), (1.7e308, 1.7e308)],
    "gaussian": [(-1e308, 5e-324), (0., 1.7e308)], "laplace": [(-1e308, 5e-324), (0., 1.7e308)], "logistic": [(-1e308, 5e-324), (0., 1.7e308)],
    "lognormal": [(-1e308, 5e-324), (0., 1.7e308)], "pert": [(0., 5e-324, 1.), (-1e307, 0., 1e307), (0., 1 - 2.0 ** -53, 1.), (1., 1 + EPS, 1 + 2 * EPS)],
    "triangular": [(0., 1., 0.), (0., 1., 1.), (0., 5e-324, 0.), (-1e308, 1e307, 0.), (1., 1 + EPS, 1.)], "uniform": [(0., 5e-324), (-1e308, 1e307), (1., 1 + EPS)],
}


def c20(ctx):
    from scipy.special import ndtr
    for profile in ("checked", "release"):
        b = Batch()
        plan, twins = [], []
        for fam in CONT + DISC:
            ps = gen.params(fam, ctx.rng, ctx.scale(8000, 60000)) + BOUNDARY[fam]
            for p in dict.fromkeys(tuple(float(v) for v in q) for q in ps):
                plan.append((fam, p, b.add(fam, p, "params").start))
        for d, (fam, p) in DEFAULTS.items():
            plan.append((fam, p, b.add(d, (), "params").start))
            u = gen.probabilities(ctx.rng, 6, fam=fam)
            x = np.concatenate([ctx.rng.normal(0, 3, 20), [0, 1, .5]])
            for op, args in [("cdf", x), ("pdf", x), ("inverse", u)] + [(o, [0.]) for o in STATS]:
                twins.append((b.add(d, (), op, args), b.add(fam, p, op, args)))
        # alternative constructors, exact complements
        for _ in range(ctx.scale(100, 1000)):
            k = float(ctx.rng.integers(1, 2 ** 20)) / 2 ** 20
            n = float(ctx.rng.integers(1, 400))
            x = np.arange(0, min(n, 20) + 1)
            for A, pa, B, pb in (("bernoulli", (k,), "bernoulli_f", (1 - k,)), ("binomial", (n, k), "binomial_f", (n, 1 - k))):
                twins.append((b.add(A, pa, "pdf", x if A == "binomial" else [0., 1.]), b.add(B, pb, "pdf", x if A == "binomial" else [0., 1.])))
                for op, args in (("cdf", x), ("inverse", ctx.rng.random(4)), ("mean", [0.]), ("variance", [0.]), ("median", [0.]), ("skewness", [0.]), ("entropy", [0.])):
                    twins.append((b.add(A, pa, op, args), b.add(B, pb, op, args)))
        R = b.run(profile)
        ok = ctx.settle(R, profile)
        for fam, p, i in plan:
            if not ok[i]:
                continue
            want, tol = expected_params(fam, p)
            got = R.list(i)
            ctx.count("constructed_" + fam)
            ctx.ndistinct += 1
            good = len(got) == len(want)
            for g, w, t in zip(got, want, tol):
                good = good and (g == w if t == 0 else abs(g - w) <= t * max(1.0, abs(w)))
            if len(ctx.samples) < 8 and ctx.rng.random() < .001:
                ctx.sample(family=fam, given=list(p)[:8], accessors=[float(v) for v in got[:9]], profile=profile)
            if not good:
                ctx.violate("accessors do not return the parameters: expected %s" % want[:9], request=R.describe(i), profile=profile)
        for l, r in twins:
            a, c = R.val[l], R.val[r]
            o = ok[l] & ok[r]
            ctx.count("twin_queries", int(o.sum()))
            ctx.ndistinct += int(o.sum())
            with np.errstate(all="ignore"):
                bad = o & ~((a == c) | (np.isnan(a) & np.isnan(c)) | (np.abs(a - c) <= 1e-11 * np.abs(c)))
            for j in np.where(bad)[0][:2]:
                ctx.violate("two constructions of one distribution differ: expected %.17g" % c[j], request=R.describe(l.start + j),
                            partner=R.describe(r.start + j), profile=profile)
        if ctx.nviol:
            break
    return dict(rule=PARAM_RULE + "boundary parameters (least positive, huge, adjacent floats, degenerate binomial), in both profiles; each constructed once and read back; default and "
                     "alternative constructors queried against the plain ones; non-trivial: each", assumptions=["derived parameters to rounding"])


# ------------------------------------------------------------------ C22
# Around the limits of small integers.
LONG = [127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100003, 262144, 1000003]


def c22(ctx):
    b = Batch()
    plan = []
    rng = ctx.rng
    for it in range(ctx.scale(24000, 120000)):
        n = int(rng.choice([2, 3, 4, 5, int(lu(rng, 2, 60)), int(lu(rng, 10, 2000))]))
        if it < len(LONG):
            n = LONG[it]
        scale = float(lu(rng, 1e-6, 1e6))
        off = 0.0 if rng.random() < .3 else float(rng.choice([-1, 1])) * scale * float(lu(rng, 1e-2, 1e6))
        kind = rng.integers(0, 6)
        if kind == 0:
            v = off + scale * rng.normal(0, 1, n)
        elif kind == 1:
            v = off + scale * rng.integers(-3, 4, n)
        elif kind == 2:
            v = off + scale * rng.standard_cauchy(n)
        elif kind == 3:
            v = off + scale * np.arange(n)
        elif kind == 4:
            v = off + scale * np.where(np.arange(n) == rng.integers(0, n), 1.0, 0.0)
        else:
            v = off + scale * rng.random(n)
        if rng.random() < .2:
            v = np.sort(v)[::-1]
        v = v.astype(float)
        if len(set(v)) < 2:
            continue
        v = tuple(v)
        # However the numbers are delivered.
        shapes = [b.add("gaussian_from_shape", (float(k),) + v, "params").start for k in rng.permutation(9)[:2]]
        plan.append((v, b.add("gaussian_from_iter", v, "params").start, shapes))
    R = b.run()
    ok = ctx.settle(R, "release")
    for v, i, shapes in plan:
        if not ok[i]:
            continue
        got = R.list(i)
        for j in shapes:
            if ok[j]:
                ctx.count("collected through other iterators")
                if list(R.list(j)) != list(got):
                    ctx.violate("collected from another kind of iterator: expected mean %.17g, deviation %.17g" % tuple(got), request=R.describe(j), profile="release")
        f = [Fr(x) for x in v]
        n = len(f)
        m = sum(f) / n
        var = sum((x - m) ** 2 for x in f) / (n - 1)
        sd = math.sqrt(float(var)) if float(var) > 1e-300 else 0.0
        mean = float(m)
        big = float(sum(abs(x) for x in f) / n)
        tm = 4 * EPS * n * big
        ts = 1e-13 * sd + 16 * EPS * n * big
        # Linear in the offset: a one-pass sum of squares would lose the square of it.
        ts = ts + 32 * EPS * n * sd
        ctx.count("sequences")
        ctx.ndistinct += 1
        good = len(got) == 2 and abs(got[0] - mean) <= tm and abs(got[1] - sd) <= ts
        ctx.margin("mean", abs(got[0] - mean) / tm)
        ctx.margin("deviation", abs(got[1] - sd) / ts)
        if len(ctx.samples) < 6 and rng.random() < .01:
            ctx.sample(data=list(v)[:8], n=n, observed=[float(x) for x in got], exact=[mean, sd])
        if not good:
            ctx.violate("collected distribution: expected mean %.17g, deviation %.17g" % (mean, sd), request=R.describe(i), profile="release")
    return dict(rule="random sequences of 2 to 2000 numbers and some of up to a million, each through three kinds of iterators (known, unknown and partly known length, linked, nested, unfused): normal, heavy-tailed, integer grids, ramps, single outliers, with offsets up to 1e6 deviations; non-trivial: at least two "
                     "distinct numbers", assumptions=["exact rational arithmetic is the reference", "the deviation is allowed an error linear in offset over deviation (Welford or two passes), not quadratic"])
