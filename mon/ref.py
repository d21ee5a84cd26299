"""Reference model: the mathematical distributions, computed without the library.

Floating-point code cannot return the exact value, so every comparison is done
against an interval: the exact function over all arguments within K units in the
last place of the argument (the conditioning of the problem), widened by the
tolerance of the property.  Stage one uses scipy; an alarm is only raised after
mpmath at high precision agrees that the value is outside (see `arbitrate`).
"""
import math
import numpy as np
import scipy.special as sp
import mpmath as mp

EPS = 2.0 ** -52
INF = float("inf")
K = 16


def xlogy(a, b):
    return sp.xlogy(a, b)


class Cont:
    """A continuous distribution in a standard coordinate z = z(x)."""

    def __init__(self, fam, p):
        self.fam, self.p = fam, tuple(p)
        f = fam
        if f in ("cauchy", "gaussian", "laplace", "logistic"):
            self.loc, self.scale = p[0], p[1]
            self.lo, self.hi = -INF, INF
        elif f == "lognormal":
            self.mu, self.sigma = p[0], p[1]
            self.lo, self.hi = 0.0, INF
        elif f == "exponential":
            self.lo, self.hi = 0.0, INF
        elif f == "gamma":
            self.lo, self.hi = 0.0, INF
        elif f == "beta":
            self.al, self.be, self.a, self.b = p
            self.lo, self.hi = self.a, self.b
        elif f == "pert":
            a, b, c = p
            self.a, self.b = a, c
            self.al = 1 + 4 * (b - a) / (c - a)
            self.be = 1 + 4 * (c - b) / (c - a)
            self.lo, self.hi = a, c
        elif f == "triangular":
            self.a, self.b, self.c = p
            self.lo, self.hi = p[0], p[1]
        elif f == "uniform":
            self.a, self.b = p
            self.lo, self.hi = p
        else:
            raise KeyError(f)

    # -- standard coordinate and its uncertainty
    def z(self, x, k=K):
        x = np.asarray(x, dtype=float)
        with np.errstate(all="ignore"):
            f = self.fam
            if f in ("cauchy", "gaussian", "laplace", "logistic"):
                z = (x - self.loc) / self.scale
                d = k * EPS * np.abs(z)
            elif f == "lognormal":
                l = np.log(np.where(x > 0, x, 0.0))
                z = (l - self.mu) / self.sigma
                d = k * EPS * ((np.abs(l) + abs(self.mu)) / self.sigma + np.abs(z))
            elif f == "exponential":
                z = x * self.p[0]
                d = k * EPS * np.abs(z)
            elif f == "gamma":
                z = x / self.p[1]
                d = k * EPS * np.abs(z)
            else:
                z = (x - self.lo) / (self.hi - self.lo)
                d = k * EPS * np.abs(z)
        return z, np.where(np.isfinite(d), d, 0.0)

    # -- standard cdf, sf and density in the coordinate z
    def F(self, z):
        with np.errstate(all="ignore"):
            f = self.fam
            if f in ("gaussian", "lognormal"):
                return sp.ndtr(z)
            if f == "cauchy":
                return np.where(z < -1, np.arctan(-1 / np.where(z < -1, z, -1)) / np.pi, 0.5 + np.arctan(z) / np.pi)
            if f == "laplace":
                return np.where(z <= 0, 0.5 * np.exp(np.minimum(z, 0)), 1 - 0.5 * np.exp(-np.maximum(z, 0)))
            if f == "logistic":
                return sp.expit(z)
            if f == "exponential":
                return np.where(z <= 0, 0.0, -np.expm1(-np.maximum(z, 0)))
            if f == "gamma":
                return np.where(z <= 0, 0.0, sp.gammainc(self.p[0], np.maximum(z, 0)))
            if f in ("beta", "pert"):
                return sp.betainc(self.al, self.be, np.clip(z, 0, 1))
            if f == "triangular":
                m = (self.c - self.a) / (self.b - self.a)
                n = (self.b - self.c) / (self.b - self.a)
                t = np.clip(z, 0, 1)
                left = t * t / m if m > 0 else np.zeros_like(t)
                right = 1 - (1 - t) ** 2 / n if n > 0 else np.ones_like(t)
                return np.where(t <= m, left, right)
            if f == "uniform":
                return np.clip(z, 0, 1)

    def f(self, z):
        with np.errstate(all="ignore"):
            f = self.fam
            z = np.asarray(z, dtype=float)
            if f in ("gaussian", "lognormal"):
                return np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
            if f == "cauchy":
                return 1 / (np.pi * (1 + z * z))
            if f == "laplace":
                return 0.5 * np.exp(-np.abs(z))
            if f == "logistic":
                e = np.exp(-np.abs(z))
                return e / (1 + e) ** 2
            if f == "exponential":
                return np.where(z < 0, 0.0, np.exp(-np.maximum(z, 0)))
            if f == "gamma":
                k = self.p[0]
                zz = np.maximum(z, 5e-324)
                return np.where((z <= 0) | (z == INF), 0.0,
                                np.exp(xlogy(k - 1, zz) - zz - math.lgamma(k)))
            if f in ("beta", "pert"):
                t = np.clip(z, 0, 1)
                v = np.exp(xlogy(self.al - 1, t) + sp.xlog1py(self.be - 1, -t) - sp.betaln(self.al, self.be))
                return np.where((z < 0) | (z > 1), 0.0, v)
            if f == "triangular":
                m = (self.c - self.a) / (self.b - self.a)
                n = (self.b - self.c) / (self.b - self.a)
                v = np.where(z < m, 2 * z / (m if m > 0 else 1), 2 * (1 - z) / (n if n > 0 else 1))
                v = np.where(z == m, 2.0, v)
                return np.where((z < 0) | (z > 1), 0.0, v)
            if f == "uniform":
                return np.where((z < 0) | (z > 1), 0.0, 1.0)

    def Q(self, p):
        """Standard quantile."""
        p = np.asarray(p, dtype=float)
        with np.errstate(all="ignore"):
            f = self.fam
            if f in ("gaussian", "lognormal"):
                return sp.ndtri(p)
            if f == "cauchy":
                return np.where(p < .25, -1 / np.tan(np.pi * p), np.where(p > .75, 1 / np.tan(np.pi * (1 - p)), np.tan(np.pi * (p - 0.5))))
            if f == "laplace":
                return np.where(p <= .5, np.log(2 * p), -np.log(2 * (1 - p)))
            if f == "logistic":
                return sp.logit(p)
            if f == "exponential":
                return -np.log1p(-p)
            if f == "gamma":
                return sp.gammaincinv(self.p[0], p)
            if f in ("beta", "pert"):
                return sp.betaincinv(self.al, self.be, p)
            if f == "triangular":
                m = (self.c - self.a) / (self.b - self.a)
                return np.where(p <= m, np.sqrt(p * m), 1 - np.sqrt((1 - p) * (1 - m)))
            if f == "uniform":
                return p

    def x(self, z):
        """Back from the standard coordinate."""
        with np.errstate(all="ignore"):
            f = self.fam
            if f in ("cauchy", "gaussian", "laplace", "logistic"):
                return self.loc + self.scale * z
            if f == "lognormal":
                return np.exp(self.mu + self.sigma * z)
            if f == "exponential":
                return z / self.p[0]
            if f == "gamma":
                return z * self.p[1]
            return self.lo + (self.hi - self.lo) * z

    def ppf(self, p):
        return self.x(self.Q(p))

    def jac(self, x):
        """dz/dx."""
        f = self.fam
        x = np.asarray(x, dtype=float)
        with np.errstate(all="ignore"):
            if f in ("cauchy", "gaussian", "laplace", "logistic"):
                return np.full(x.shape, 1 / self.scale)
            if f == "lognormal":
                return np.where(x > 0, 1 / (x * self.sigma), 0.0)
            if f == "exponential":
                return np.full(x.shape, self.p[0])
            if f == "gamma":
                return np.full(x.shape, 1 / self.p[1])
            return np.full(x.shape, 1 / (self.hi - self.lo))

    # -- intervals
    def cdf_interval(self, x, k=K):
        z, d = self.z(x, k)
        x = np.asarray(x, dtype=float)
        lo, hi = self.F(z - d), self.F(z + d)
        lo = np.where(x <= self.lo, 0.0, np.where(x >= self.hi, 1.0, lo))
        hi = np.where(x <= self.lo, 0.0, np.where(x >= self.hi, 1.0, hi))
        return lo, hi

    def pdf_interval(self, x, k=K):
        """Range of the density over the uncertainty of the argument."""
        x = np.asarray(x, dtype=float)
        z, d = self.z(x, k)
        if self.fam in ("beta", "pert", "triangular", "uniform"):
            zs = [z, np.clip(z - d, 0, 1), np.clip(z + d, 0, 1)]
        else:
            zs = [z, z - d, z + d]
            if self.fam in ("exponential", "gamma"):
                zs[1] = np.maximum(zs[1], z * (1 - 1e-15))
        # The peak, when it is in the range.
        peak = 0.0
        if self.fam in ("beta", "pert") and self.al > 1 and self.be > 1:
            peak = (self.al - 1) / (self.al + self.be - 2)
        elif self.fam == "triangular":
            peak = (self.c - self.a) / (self.b - self.a)
        elif self.fam == "gamma":
            peak = max(self.p[0] - 1, 0.0)
        zs.append(np.minimum(np.maximum(peak, zs[1]), zs[2]))
        with np.errstate(all="ignore"):
            v = np.array([self.f(q) for q in zs]) * self.jac(x)
            out = (x < self.lo) | (x > self.hi) | (x == INF) | (x == -INF)
            if self.fam in ("lognormal", "gamma"):
                out |= x <= 0
            v = np.where(out, 0.0, v)
        return v.min(axis=0), v.max(axis=0)


# ---------------------------------------------------------------- mpmath oracle
def mp_cdf(fam, p, x):
    """The exact cumulative probability of x, at high precision."""
    mp.mp.dps = 50
    m = [mp.mpf(v) for v in p]
    X = mp.mpf(x)
    if fam == "gaussian":
        return mp.ncdf((X - m[0]) / m[1])
    if fam == "lognormal":
        return mp.ncdf((mp.log(X) - m[0]) / m[1]) if X > 0 else mp.mpf(0)
    if fam == "cauchy":
        z = (X - m[0]) / m[1]
        return mp.atan(-1 / z) / mp.pi if z < -1 else mp.mpf(1) / 2 + mp.atan(z) / mp.pi
    if fam == "laplace":
        z = (X - m[0]) / m[1]
        return mp.exp(z) / 2 if z <= 0 else 1 - mp.exp(-z) / 2
    if fam == "logistic":
        return 1 / (1 + mp.exp(-(X - m[0]) / m[1]))
    if fam == "exponential":
        return -mp.expm1(-X * m[0]) if X > 0 else mp.mpf(0)
    if fam == "gamma":
        if X <= 0:
            return mp.mpf(0)
        return mp.gammainc(m[0], 0, X / m[1], regularized=True)
    if fam in ("beta", "pert"):
        if fam == "beta":
            al, be, a, b = m
        else:
            a, b = m[0], m[2]
            al, be = 1 + 4 * (m[1] - a) / (b - a), 1 + 4 * (b - m[1]) / (b - a)
        t = (X - a) / (b - a)
        if t <= 0:
            return mp.mpf(0)
        if t >= 1:
            return mp.mpf(1)
        return mp_betainc(al, be, t)
    if fam == "triangular":
        a, b, c = m
        if X <= a:
            return mp.mpf(0)
        if X >= b:
            return mp.mpf(1)
        if X <= c:
            return (X - a) ** 2 / ((b - a) * (c - a))
        return 1 - (b - X) ** 2 / ((b - a) * (b - c))
    if fam == "uniform":
        return min(mp.mpf(1), max(mp.mpf(0), (X - m[0]) / (m[1] - m[0])))
    raise KeyError(fam)


def mp_betainc(a, b, x):
    """Regularised incomplete beta by the continued fraction, with reflection."""
    if x <= 0:
        return mp.mpf(0)
    if x >= 1:
        return mp.mpf(1)
    if x > (a + 1) / (a + b + 2):
        return 1 - mp_betainc_cf(b, a, 1 - x)
    return mp_betainc_cf(a, b, x)


def mp_betainc_cf(a, b, x):
    lead = mp.exp(a * mp.log(x) + b * mp.log1p(-x) - mp.log(a) -
                  (mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b)))
    tiny = mp.mpf(10) ** -200
    c, d = mp.mpf(1), 1 - (a + b) * x / (a + 1)
    d = 1 / (d if d != 0 else tiny)
    h = d
    for i in range(1, 200000):
        num = i * (b - i) * x / ((a + 2 * i - 1) * (a + 2 * i))
        d = 1 + num * d
        d = 1 / (d if d != 0 else tiny)
        c = 1 + num / c
        c = c if c != 0 else tiny
        h *= d * c
        num = -(a + i) * (a + b + i) * x / ((a + 2 * i) * (a + 2 * i + 1))
        d = 1 + num * d
        d = 1 / (d if d != 0 else tiny)
        c = 1 + num / c
        c = c if c != 0 else tiny
        step = d * c
        h *= step
        if abs(step - 1) < mp.mpf(10) ** -30:
            break
    return lead * h


def mp_pdf(fam, p, x):
    mp.mp.dps = 50
    m = [mp.mpf(v) for v in p]
    X = mp.mpf(x)
    if X in (mp.inf, -mp.inf):
        return mp.mpf(0)
    if fam == "gaussian":
        z = (X - m[0]) / m[1]
        return mp.exp(-z * z / 2) / (m[1] * mp.sqrt(2 * mp.pi))
    if fam == "lognormal":
        if X <= 0:
            return mp.mpf(0)
        z = (mp.log(X) - m[0]) / m[1]
        return mp.exp(-z * z / 2) / (X * m[1] * mp.sqrt(2 * mp.pi))
    if fam == "cauchy":
        z = (X - m[0]) / m[1]
        return 1 / (mp.pi * m[1] * (1 + z * z))
    if fam == "laplace":
        return mp.exp(-abs(X - m[0]) / m[1]) / (2 * m[1])
    if fam == "logistic":
        e = mp.exp(-abs(X - m[0]) / m[1])
        return e / (m[1] * (1 + e) ** 2)
    if fam == "exponential":
        return m[0] * mp.exp(-m[0] * X) if X >= 0 else mp.mpf(0)
    if fam == "gamma":
        if X <= 0:
            return mp.mpf(0)
        return mp.exp((m[0] - 1) * mp.log(X / m[1]) - X / m[1] - mp.loggamma(m[0])) / m[1]
    if fam in ("beta", "pert"):
        if fam == "beta":
            al, be, a, b = m
        else:
            a, b = m[0], m[2]
            al, be = 1 + 4 * (m[1] - a) / (b - a), 1 + 4 * (b - m[1]) / (b - a)
        t = (X - a) / (b - a)
        if t < 0 or t > 1:
            return mp.mpf(0)
        if t == 0:
            return mp.inf if al < 1 else mp.mpf(0) if al > 1 else be / (b - a)
        if t == 1:
            return mp.inf if be < 1 else mp.mpf(0) if be > 1 else al / (b - a)
        return mp.exp((al - 1) * mp.log(t) + (be - 1) * mp.log1p(-t) -
                      (mp.loggamma(al) + mp.loggamma(be) - mp.loggamma(al + be))) / (b - a)
    if fam == "triangular":
        a, b, c = m
        if X < a or X > b:
            return mp.mpf(0)
        h = 2 / (b - a)
        if X < c:
            return h * (X - a) / (c - a)
        if X > c:
            return h * (b - X) / (b - c)
        return h
    if fam == "uniform":
        return 1 / (m[1] - m[0]) if m[0] <= X <= m[1] else mp.mpf(0)
    raise KeyError(fam)


# ------------------------------------------------------------------- discrete
class Disc:
    """A discrete distribution on 0, 1, ..., n."""

    def __init__(self, fam, p):
        self.fam, self.p = fam, tuple(p)
        if fam == "bernoulli":
            self.pp, self.qq, self.n = p[0], 1 - p[0], 1
        elif fam == "bernoulli_f":
            self.qq, self.pp, self.n = p[0], 1 - p[0], 1
        elif fam == "binomial":
            self.n, self.pp, self.qq = int(p[0]), p[1], 1 - p[1]
        elif fam == "binomial_f":
            self.n, self.qq, self.pp = int(p[0]), p[1], 1 - p[1]
        elif fam == "categorical":
            self.v = np.asarray(p, dtype=float)
            self.n = len(p) - 1
            self.exact = [mp.mpf(x) for x in p]
            self.cum = np.array([math.fsum(p[:i + 1]) for i in range(len(p))])
        else:
            raise KeyError(fam)
        self.small_failure = fam.endswith("_f")

    def cdf(self, k):
        k = np.asarray(k, dtype=float)
        kk = np.floor(k)
        with np.errstate(all="ignore"):
            if self.fam in ("bernoulli", "bernoulli_f"):
                v = np.where(kk < 0, 0.0, np.where(kk < 1, self.qq, 1.0))
            elif self.fam == "categorical":
                i = np.clip(kk, 0, self.n).astype(int)
                v = np.where(kk < 0, 0.0, np.where(kk >= self.n, 1.0, self.cum[i]))
            else:
                i = np.clip(kk, 0, max(self.n - 1, 0))
                if self.n == 0:
                    v = np.ones_like(kk)
                else:
                    v = np.where(i == 0, np.exp(self.n * self.lnq()), self._b(i))
                v = np.where(kk < 0, 0.0, np.where(kk >= self.n, 1.0, v))
        return v

    def lnq(self):
        if self.fam == "binomial_f":
            return math.log(self.qq) if self.qq > 0 else -INF
        return math.log1p(-self.pp) if self.pp < 1 else -INF

    def lnp(self):
        if self.fam == "binomial_f":
            return math.log1p(-self.qq) if self.qq < 1 else -INF
        return math.log(self.pp) if self.pp > 0 else -INF

    def _b(self, i):
        # P(X <= i) = I_q(n - i, i + 1) = 1 - I_p(i + 1, n - i)
        if self.fam == "binomial_f":
            return sp.betainc(self.n - i, i + 1, self.qq)
        return sp.betaincc(i + 1, self.n - i, self.pp)

    def pmf(self, k):
        k = np.asarray(k, dtype=float)
        with np.errstate(all="ignore"):
            if self.fam in ("bernoulli", "bernoulli_f"):
                return np.where(k == 0, self.qq, np.where(k == 1, self.pp, 0.0))
            if self.fam == "categorical":
                i = np.clip(k, 0, self.n).astype(int)
                return np.where((k >= 0) & (k <= self.n), self.v[i], 0.0)
            n = self.n
            from scipy.stats import binom
            if self.fam == "binomial_f":
                v = binom.pmf(n - k, n, self.qq)
            else:
                v = binom.pmf(k, n, self.pp)
            return np.where((k >= 0) & (k <= n), v, 0.0)

    def ppf_guess(self, p):
        """Approximate quantiles, to aim queries; not an oracle."""
        p = np.asarray(p, dtype=float)
        if self.fam in ("bernoulli", "bernoulli_f", "categorical"):
            c = self.cdf(np.arange(self.n + 1))
            return np.clip(np.searchsorted(c, p), 0, self.n).astype(float)
        from scipy.stats import binom
        with np.errstate(all="ignore"):
            if self.pp <= 0:
                return np.zeros(p.shape)
            if self.qq <= 0:
                return np.full(p.shape, float(self.n))
            m, s = self.n * self.pp, math.sqrt(self.n * self.pp * self.qq)
            if self.n > 10 ** 7:
                v = np.round(m + s * sp.ndtri(p))
            else:
                v = binom.ppf(p, self.n, self.pp)
            v = np.where(np.isfinite(v), v, m)
        return np.clip(v, 0, self.n)


def mp_pmf(fam, p, k):
    mp.mp.dps = 60
    if fam in ("bernoulli", "bernoulli_f"):
        q = mp.mpf(p[0]) if fam == "bernoulli_f" else 1 - mp.mpf(p[0])
        return q if k == 0 else 1 - q if k == 1 else mp.mpf(0)
    if fam == "categorical":
        return mp.mpf(p[int(k)]) if 0 <= k < len(p) else mp.mpf(0)
    n = int(p[0])
    if k < 0 or k > n:
        return mp.mpf(0)
    k = int(k)
    a = mp.mpf(p[1])
    pp, qq = (1 - a, a) if fam == "binomial_f" else (a, 1 - a)
    if pp == 0:
        return mp.mpf(1 if k == 0 else 0)
    if qq == 0:
        return mp.mpf(1 if k == n else 0)
    return mp.exp(mp.loggamma(n + 1) - mp.loggamma(k + 1) - mp.loggamma(n - k + 1) +
                  k * mp.log(pp) + (n - k) * mp.log(qq))


def mp_dcdf(fam, p, x):
    mp.mp.dps = 60
    k = math.floor(x) if math.isfinite(x) else x
    if k < 0:
        return mp.mpf(0)
    if fam in ("bernoulli", "bernoulli_f"):
        q = mp.mpf(p[0]) if fam == "bernoulli_f" else 1 - mp.mpf(p[0])
        return q if k < 1 else mp.mpf(1)
    if fam == "categorical":
        if k >= len(p) - 1:
            return mp.mpf(1)
        return mp.fsum(mp.mpf(v) for v in p[:int(k) + 1])
    n = int(p[0])
    if k >= n:
        return mp.mpf(1)
    a = mp.mpf(p[1])
    pp, qq = (1 - a, a) if fam == "binomial_f" else (a, 1 - a)
    if pp == 0:
        return mp.mpf(1)
    if qq == 0:
        return mp.mpf(0)
    return mp_betainc(mp.mpf(n - k), mp.mpf(k + 1), qq)
