"""Monitors that judge the answers of a distribution by its other answers: no
reference values, only two or more executions of the library."""
import math
import numpy as np
import scipy.special as sp
import gen
from gen import CONT, DISC, INV, INF, EPS
from numeric import (model, points, lattice, acdf, beyond, newton_regime, k1_factor, IPROB, RELATIVE_TAIL,
                     GL_X, GL_W, PARAM_RULE)
from vlib import Batch


# ------------------------------------------------------------------ C25 round trips
def accuracy(m, fam, u):
    """Accuracy of distribution(inverse(p)) in terms of the probability."""
    a = np.full(u.shape, 2 * acdf(m) + IPROB.get(fam, 0.0))
    if fam in RELATIVE_TAIL:
        a = np.where(u < .1, 4e-12 * u + 1e-320, 4e-13)
        if fam == "triangular":
            a = a + 1e-13
            if m.c > m.a:
                a = a + 1e-322 / (m.b - m.a) / (m.c - m.a)
    return a


def blur(m, q):
    """What rounding may do to a quantile."""
    with np.errstate(all="ignore"):
        d = 16 * EPS * np.abs(q) + 1e-323
        if m.fam == "lognormal":
            z = np.abs((np.log(np.maximum(q, 1e-320)) - m.mu) / m.sigma)
            d = q * 16 * EPS * (abs(m.mu) + m.sigma * z + 1) + 1e-323
        elif m.fam in ("cauchy", "gaussian", "laplace", "logistic"):
            d = d + 16 * EPS * abs(m.loc) + 1e-15 * m.scale * (1 + 100 * (np.abs(q - m.loc) / m.scale))
        elif m.fam in ("beta", "pert", "triangular", "uniform"):
            d = d + 8 * EPS * (abs(m.lo) + abs(m.hi))
    return np.where(np.isfinite(d), d, 0.0)


def c25(ctx):
    """distribution(inverse(p)) against p, and inverse(distribution(x)) against x."""
    b = Batch()
    first = []
    for fam in INV:
        ps = gen.params(fam, ctx.rng, ctx.scale(3000, 10000))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
        for p in ps:
            if fam == "beta" and (min(p[:2]) < .02 or max(p[:2]) > 2e3 or max(p[:2]) > 1e4 * min(p[:2])):
                continue
            if beyond(fam, p):
                continue
            m = model(fam, p)
            if fam in CONT:
                x = points(m, ctx.rng, 8)
                x = x[np.isfinite(x) & (x > m.lo) & (x < m.hi)]
                x = ctx.rng.choice(x, min(len(x), 12), replace=False) if len(x) else x
                u = np.unique(np.concatenate([[0.0, 1.0], gen.probabilities(ctx.rng, 8)]))
                if fam in ("beta", "pert"):
                    u = ctx.rng.choice(u, 16, replace=False)
                u = np.unique(np.clip(u, 0, 1))
            else:
                x = lattice(m, ctx.rng, 8)
                x = ctx.rng.choice(x, min(len(x), ctx.scale(24, 60)), replace=False)
                u = gen.probabilities(ctx.rng, 8, extreme=False, fam=fam)
                u = ctx.rng.choice(u, min(len(u), 16), replace=False)
            x = np.unique(x)
            first.append((fam, p, m, x, u, b.add(fam, p, "inverse", u), b.add(fam, p, "cdf", x),
                          b.add(fam, p, "cdf", x - 1) if fam in DISC else None))
    R1 = b.run(cpu=20.0)
    ok1 = ctx.settle(R1, "release")
    # Second round: arguments taken from the answers of the first.
    b2 = Batch()
    second = []
    for fam, p, m, x, u, si, sc, sp_ in first:
        if fam in CONT:
            q, o = R1.val[si], ok1[si]
            keep = o & np.isfinite(q)
            qq, uu = q[keep], u[keep]
            F, o = R1.val[sc], ok1[sc]
            back = np.unique(F[o & (F > 0) & (F < 1)])
            d = blur(m, qq)
            second.append((fam, p, m, uu, qq, b2.add(fam, p, "cdf", qq - d), b2.add(fam, p, "cdf", qq + d), back,
                           b2.add(fam, p, "inverse", back) if len(back) else None))
        else:
            q, o = R1.val[si], ok1[si]
            keep = o & (q >= 0) & (q <= m.n)
            qq, uu = q[keep], u[keep]
            F1, F0 = R1.val[sc], R1.val[sp_]
            o = ok1[sc] & ok1[sp_]
            jump = F1 - F0
            mid = F0 + .5 * jump
            sel = o & (jump > 1e-7 + 100 * acdf(m)) & (mid > 0) & (mid < 1)
            second.append((fam, p, m, uu, qq, b2.add(fam, p, "cdf", qq), b2.add(fam, p, "cdf", qq - 1), (x[sel], mid[sel], b2.add(fam, p, "cdf", qq + 1)),
                           b2.add(fam, p, "inverse", mid[sel]) if sel.any() else None))
    R2 = b2.run(cpu=20.0)
    ok2 = ctx.settle(R2, "release")
    b3 = Batch()
    third = []
    for fam, p, m, uu, qq, s0, s1, back, sb in second:
        lo, hi, o = R2.val[s0], R2.val[s1], ok2[s0] & ok2[s1]
        if fam in CONT:
            a = accuracy(m, fam, uu) + 1e-307
            with np.errstate(all="ignore"):
                err = np.maximum(lo - uu, uu - hi)
                bad = o & ~(err <= a)
                inner = o & (uu > 0) & (uu < 1)
                if inner.any():
                    ctx.margin("forth_" + fam, max(0.0, (err / a)[inner].max()))
            ctx.count("forth_" + fam, int(o.sum()))
            ctx.ndistinct += int(inner.sum())
            for i in np.where(bad)[0][:3]:
                ctx.violate("the quantile of %r is %r, around which the distribution function goes from %r to %r" %
                            (float(uu[i]), float(qq[i]), float(lo[i]), float(hi[i])), request=R2.describe(s1.start + i), profile="release")
            if len(ctx.samples) < 6 and ctx.rng.random() < .02 and len(uu):
                i = len(uu) // 2
                ctx.sample(family=fam, params=list(p)[:8], p=float(uu[i]), quantile=float(qq[i]), distribution_around=[float(lo[i]), float(hi[i])])
            if sb is not None:
                q, o = R2.val[sb], ok2[sb]
                keep = o & np.isfinite(q)
                d = blur(m, q[keep])
                third.append((fam, p, m, back[keep], q[keep], b3.add(fam, p, "cdf", q[keep] - d), b3.add(fam, p, "cdf", q[keep] + d)))
                lost = o & ~np.isfinite(q) & (fam != "lognormal")
                for i in np.where(lost)[0][:2]:
                    ctx.violate("the quantile of an inner probability is not finite", request=R2.describe(sb.start + i), profile="release")
            continue
        # F(q) >= p > F(q - 1), with the accuracy of the sums; asymptotic answers within a fraction of the jump.
        a = np.full(uu.shape, 2 * acdf(m) if fam.startswith("binomial") else 4e-16 * len(p) + 4e-16)
        if fam == "categorical":
            a = a + np.where(uu > 1 - 2e-11, 2e-12, 0)
        if fam.startswith("binomial"):
            a = a + 8 * EPS * (min(m.n, 1000) + 1.0)
            v = m.n * m.pp * m.qq
            if m.n >= 1000 and v > 80:
                w = np.abs(sp.ndtri(np.clip(uu, 1e-300, 1 - 1e-16)))
                a = a + (hi_mass := np.abs(R2.val[s0] - R2.val[s1])) * 2 * (0.02 + 2e-3 * np.maximum(w - 5, 0) ** 4)
        Fq, Fb = lo, hi  # cdf at the quantile and below it
        inner = o & (uu > 0) & (uu < 1)
        low = inner & ~(Fq >= uu - a)
        high = inner & ~((Fb < uu + a) | (qq == 0))
        ctx.count("forth_" + fam, int(o.sum()))
        ctx.ndistinct += int(inner.sum())
        for i in np.where(low | high)[0][:6]:
            if low[i] and newton_regime(fam, m) and uu[i] - Fq[i] < 0.6 * (Fq[i] - Fb[i]) + 1e-8 and \
                    ok2[back[2]][i] and R2.val[back[2]][i] >= uu[i] - a[i] and ctx.finding("K2", R2.describe(s0.start + i)):
                continue
            ctx.violate("the quantile of %r is %d, but the distribution function is %r there and %r one below" %
                        (float(uu[i]), qq[i], float(Fq[i]), float(Fb[i])), request=R2.describe(s0.start + i), profile="release")
        if sb is not None:
            k, mid = back[:2]
            q, o = R2.val[sb], ok2[sb]
            bad = o & (q != k)
            if m.n >= 1000 and fam.startswith("binomial") and m.n * m.pp * m.qq > 80:
                bad &= (mid > 1e-7) & (mid < 1 - 1e-7)  # the expansion is for the bulk
            ctx.count("back_" + fam, int(o.sum()))
            ctx.ndistinct += int(o.sum())
            for i in np.where(bad)[0][:6]:
                if newton_regime(fam, m) and q[i] == k[i] - 1 and ctx.finding("K2", R2.describe(sb.start + i)):
                    continue
                ctx.violate("the quantile of the middle of the jump at %d is %r" % (k[i], float(q[i])), request=R2.describe(sb.start + i), profile="release")
    R3 = b3.run()
    ok3 = ctx.settle(R3, "release")
    for fam, p, m, u, q, s0, s1 in third:
        lo, hi, o = R3.val[s0], R3.val[s1], ok3[s0] & ok3[s1]
        a = accuracy(m, fam, u)
        with np.errstate(all="ignore"):
            err = np.maximum(lo - u, u - hi)
            bad = o & ~(err <= a)
            if o.any():
                ctx.margin("back_" + fam, max(0.0, (err / a)[o].max()))
        ctx.count("back_" + fam, int(o.sum()))
        ctx.ndistinct += int(o.sum())
        for i in np.where(bad)[0][:3]:
            ctx.violate("the distribution function does not return to %r through the quantile %r: %r to %r" %
                        (float(u[i]), float(q[i]), float(lo[i]), float(hi[i])), request=R3.describe(s1.start + i), profile="release")
    return dict(rule=PARAM_RULE + "probabilities to quantiles and back; arguments to probabilities, quantiles and back; outcomes to the middle of their "
                     "jump and back; non-trivial: an inner probability", assumptions=
                ["the two functions undo each other within the accuracy of C02, C06 and C07, over arguments within 16 ulp"])


# ------------------------------------------------------------------ C26 summaries
def panels(m):
    """Boundaries of quadrature panels in the standard coordinate covering all but a
    negligible part of the distribution, or None where that cannot be resolved.
    Returns (boundaries, logarithmic)."""
    fam = m.fam
    if fam in ("gaussian", "lognormal"):
        s = m.sigma if fam == "lognormal" else 0.0
        if fam == "lognormal" and (s > 6 or s < 1e-4 or abs(m.mu) + 60 * s > 320):
            return None
        return np.arange(-12, 12.25 + 4 * s, .5)
    if fam in ("laplace", "logistic"):
        return np.concatenate([np.arange(-70, 0, 1.0), np.arange(0, 71, 1.0)])
    if fam == "exponential":
        return np.concatenate([np.arange(0, 80, 1.0)])
    if fam == "uniform":
        return np.array([0.0, .5, 1.0])
    if fam == "triangular":
        t = (m.c - m.a) / (m.b - m.a)
        r = 4.0 ** -np.arange(0, 26)  # entropy: the logarithm of the density has branch points at the ends
        return np.unique(np.concatenate([[0.0, t, 1.0], t * r, 1 - (1 - t) * r[:20]]))
    k = np.arange(24, 0.9, -.5)
    u = np.concatenate([10.0 ** -k, [.2, .35, .5]])
    with np.errstate(all="ignore"):
        if fam == "gamma":
            k = m.p[0]
            if k < .04 or k > 1e6:
                return None
            z = np.concatenate([sp.gammaincinv(k, u), sp.gammainccinv(k, u)])
            z = z[z > 1e-270]
            z = np.concatenate([z, [1e-270 if k < .2 else z.min()]])
        else:
            if min(m.al, m.be) < .04 or max(m.al, m.be) > 1e5 or max(m.al, m.be) > 1e4 * min(m.al, m.be):
                return None
            if m.be < 1 or (m.al < 1 and m.lo != 0):
                return None
            z = np.concatenate([sp.betaincinv(m.al, m.be, u), 1 - sp.betaincinv(m.be, m.al, u)])
            z = z[(z > 1e-270) & (z < 1)]
            z = np.concatenate([z, [1e-270 if m.al < .2 else z.min(), 1.0]])
    z = np.unique(z[np.isfinite(z)])
    out = [z[0]]
    for v in z[1:]:
        # An end of the support is a branch point: no panel may be long compared with its distance.
        if v == 1 and fam != "gamma":
            a = out[-1]
            while 1 - a > 1e-13:
                a = 1 - (1 - a) / 4
                out.append(a)
            out.append(1.0)
            break
        a = out[-1]
        n = max(1, math.ceil(math.log(v / a) / math.log(4)))
        if fam != "gamma":
            n = max(n, math.ceil(math.log((1 - a) / (1 - v)) / math.log(4)))
            steps = np.unique(np.concatenate([a * (v / a) ** (np.arange(1, n + 1) / n), 1 - (1 - a) * ((1 - v) / (1 - a)) ** (np.arange(1, n + 1) / n)])) \
                if n > 1 else [v]
        else:
            steps = a * (v / a) ** (np.arange(1, n + 1) / n)
        out += [float(s) for s in steps[:-1]] + [float(v)]
    return np.unique(np.array(out))


def around(m, modes):
    """Each mode and the neighbours that rounding might have preferred."""
    out = []
    for v in modes:
        d = 16 * EPS * (abs(v) + (abs(m.lo) + abs(m.hi) if math.isfinite(m.hi) else 0))
        out += [v, np.nextafter(v, -INF), np.nextafter(v, INF), v - d, v + d]
    return out


OFFERED = {"mean", "variance", "skewness", "kurtosis", "entropy", "median", "modes"}
MISSING = {"cauchy": {"mean", "variance", "skewness", "kurtosis"}, "gamma": {"median"}, "uniform": {"modes"}}


def c26(ctx):
    b = Batch()
    plan = []
    for fam in CONT:
        offered = sorted(OFFERED - MISSING.get(fam, set()))
        for p in gen.params(fam, ctx.rng, ctx.scale(1600, 5000)):
            m = model(fam, p)
            if fam == "cauchy":
                z = None
            else:
                z = panels(m)
            if z is None and fam != "cauchy":
                ctx.count("skipped_" + fam)
                continue
            off = 0.0
            if fam in ("gaussian", "laplace", "logistic", "cauchy"):
                off = abs(m.loc) / m.scale
            elif fam in ("beta", "pert", "triangular", "uniform"):
                off = (abs(m.lo) + abs(m.hi)) / (m.hi - m.lo)
            elif fam == "lognormal":
                off = (abs(m.mu) + 1) / m.sigma
            if off > 1e7:
                ctx.count("skipped_" + fam)
                continue
            if fam == "cauchy":
                x, w = m.x(np.linspace(-5, 5, 41)), None
            else:
                h, c = .5 * np.diff(z), .5 * (z[1:] + z[:-1])
                zz = (c[:, None] + h[:, None] * GL_X[None, :]).ravel()
                x = m.x(zz)
                w = (h[:, None] * GL_W[None, :]).ravel() / m.jac(x)
            s = {o: b.add(fam, p, o) for o in offered}
            plan.append((fam, p, m, x, w, off, b.add(fam, p, "pdf", x), s))
    dplan = []
    for fam in DISC:
        for p in gen.params(fam, ctx.rng, ctx.scale(3000, 8000)) + (gen.EDGE_BINOMIAL if fam == "binomial" else []):
            m = model(fam, p)
            if m.n > ctx.scale(2000, 20000):
                continue
            k = np.arange(m.n + 1, dtype=float)
            s = {o: b.add(fam, p, o) for o in sorted(OFFERED)}
            dplan.append((fam, p, m, k, b.add(fam, p, "pdf", k), b.add(fam, p, "cdf", k), s))
    R = b.run(cpu=20.0)
    ok = ctx.settle(R, "release")
    # The distribution function at the medians, the density at the modes.
    b2 = Batch()
    more = []
    for fam, p, m, x, w, off, sd, s in plan:
        med = float(R.val[s["median"]][0]) if "median" in s and ok[s["median"]][0] else None
        modes = [float(v) for v in R.list(s["modes"].start)] if "modes" in s and ok[s["modes"]][0] else []
        more.append((b2.add(fam, p, "cdf", [med - 16 * EPS * (abs(med) + (abs(m.lo) + abs(m.hi) if math.isfinite(m.hi) else 0)),
                                            med + 16 * EPS * (abs(med) + (abs(m.lo) + abs(m.hi) if math.isfinite(m.hi) else 0))])
                     if med is not None and med == med else None,
                     modes, b2.add(fam, p, "pdf", around(m, modes)) if modes else None))
    R2 = b2.run()
    ok2 = ctx.settle(R2, "release")

    def complain(what, got, want, fam, p, i):
        ctx.violate("%s %.17g of %s, but its own %s" % (what, got, fam, want), request=R.describe(i), profile="release")
    for (fam, p, m, x, w, off, sd, s), (smed, modes, smode) in zip(plan, more):
        d = R.val[sd]
        if not ok[sd].all():
            continue
        noise = 64 * EPS * off

        def get(o):
            return float(R.val[s[o]][0]) if o in s and ok[s[o]][0] else None
        with np.errstate(all="ignore"):
            if w is not None:
                y0 = d * w
                total = y0.sum()
                tol0 = 2e-9 + 8 * noise + (1e-9 if fam in ("beta", "gamma", "pert") else 0)
                if fam in ("beta", "pert", "gamma"):
                    tol0 += 32 * EPS * ((m.p[0] if fam == "gamma" else m.al + m.be) + 2) * 40
                mean, var = get("mean"), get("variance")
                dev = math.sqrt(var) if var is not None and var > 0 and math.isfinite(var) else None
                small = (m.al if fam in ("beta", "pert") else m.p[0] if fam == "gamma" else 1) < .2
                if small:
                    tol0 += 10 * 1e-270 ** (m.al if fam != "gamma" else m.p[0]) + 1e-10
                checks = [("density", total, 1.0, tol0, "integral")]
                if mean is not None and dev is not None:
                    y = (x - mean) / dev
                    e = [float((y0 * y ** k).sum()) for k in range(5)]
                    ab = [float((y0 * np.abs(y) ** k).sum()) for k in range(5)]
                    t = [tol0 * (v + 1) * (1 + k) for k, v in enumerate(ab)]
                    # The mean itself carries rounding relative to the deviation.
                    shift = 16 * EPS * (abs(mean) / dev + off)
                    checks.append(("mean", e[1], 0.0, t[1] + shift, "standardized first moment"))
                    checks.append(("variance", e[2], 1.0, t[2] + shift * 4, "standardized second moment"))
                    if get("skewness") is not None:
                        checks.append(("skewness", e[3], get("skewness"), t[3] + shift * 8 + 1e-9 * abs(e[3]), "standardized third moment"))
                    if get("kurtosis") is not None:
                        checks.append(("kurtosis", e[4] - 3, get("kurtosis"), t[4] + shift * 16 + 1e-9 * abs(e[4]), "standardized fourth moment less three"))
                if get("entropy") is not None:
                    with np.errstate(all="ignore"):
                        l = np.where(d > 0, np.log(np.where(d > 0, d, 1.0)), 0.0)
                        ent = -float((y0 * l).sum())
                        scale = float((y0 * np.abs(l)).sum())
                    checks.append(("entropy", ent, get("entropy"), tol0 * (2 + scale) * 2, "expected negative logarithm of the density"))
                for name, got, want, tol, what in checks:
                    ctx.count("compared_" + name)
                    ctx.ndistinct += 1
                    if not math.isfinite(got) or not math.isfinite(want):
                        ctx.count("overflowed_" + name)
                        continue
                    ctx.margin(name + "_" + fam, abs(got - want) / tol)
                    if not abs(got - want) <= tol:
                        i = s[name].start if name in s else sd.start
                        ctx.violate("%s: %s from the density is %.15g, expected %.15g within %.2g" % (name, what, got, want, tol),
                                    request=R.describe(i), profile="release")
                if len(ctx.samples) < 6 and ctx.rng.random() < .02:
                    ctx.sample(family=fam, params=list(p), nodes=len(x), comparisons={n: [g, v, t] for n, g, v, t, _ in checks})
            if smed is not None and ok2[smed].all():
                lo, hi = R2.val[smed]
                a = 2 * acdf(m) + 1e-13 + (1e-8 if fam in IPROB else 0) + noise
                closed = fam == "beta" and m.al > 1 and m.be > 1 and m.al != m.be
                ctx.count("compared_median")
                if not (lo <= .5 + a and hi >= .5 - a) and not closed:
                    ctx.violate("the distribution function around the median goes from %.17g to %.17g" % (lo, hi),
                                request=R.describe(s["median"].start), profile="release")
            if smode is not None and ok2[smode].all():
                f = R2.val[smode].reshape(-1, 5).max(axis=1)
                top = float(np.max(d))
                ctx.count("compared_modes")
                tol = 1e-9 + 8 * noise * (1 + (m.p[0] if fam == "gamma" else m.al + m.be if fam in ("beta", "pert") else 0))
                if fam in ("beta", "pert", "gamma"):
                    tol += 64 * EPS * ((m.p[0] if fam == "gamma" else m.al + m.be) + 2) * 40
                if not (f.min() >= top * (1 - tol)) and not (fam == "gamma" and m.p[0] <= 1) and not (fam == "exponential" and f.min() >= top):
                    at = float(x[int(np.argmax(d))])
                    # Rounding of a mode moves the density to second order only, except at kinks and ends.
                    if not (fam == "beta" and min(m.al, m.be) < 1):
                        ctx.violate("the density at the reported mode is %.17g, but %.17g at %r" % (f.min(), top, at),
                                    request=R.describe(s["modes"].start), profile="release")
    for fam, p, m, k, sm, sc, s in dplan:
        if not ok[sm].all() or not ok[sc].all():
            continue
        raw, F = R.val[sm], R.val[sc]
        mass = raw
        if fam.startswith("binomial") and "K1" in ctx.findings:
            mass = raw * np.exp(-np.array([k1_factor(m.n, int(v)) for v in k]))

        def get(o):
            return float(R.val[s[o]][0]) if ok[s[o]][0] else None
        mean, var = get("mean"), get("variance")
        base = 1e-9 + 64 * EPS * (m.n + 1) + (4e-12 if fam == "categorical" else 0)
        checks = []
        if mean is not None and var is not None:
            checks.append(("mean", float((mass * k).sum()), mean, base * (1 + mean)))
            dv = k - mean
            checks.append(("variance", float((mass * dv ** 2).sum()), var, base * (var + (1e-3 if fam == "categorical" else 0) * (m.n + 1.0) ** 2 * 1e-3) + 1e-300))
            if var > 1e-12:
                y = dv / math.sqrt(var)
                e3, e4 = float((mass * y ** 3).sum()), float((mass * y ** 4).sum())
                a3, a4 = float((mass * np.abs(y) ** 3).sum()), e4
                soft = 1 + (1e-13 * (m.n + 1.0) ** 2 / var) / 1e-9
                checks.append(("skewness", e3, get("skewness"), base * 4 * (1 + a3) * soft))
                checks.append(("kurtosis", e4 - 3, get("kurtosis"), base * 8 * (1 + a4) * soft))
        pos = raw[raw > 0]
        checks.append(("entropy", -float((pos * np.log(pos)).sum()), get("entropy"), base * (2 + math.log(m.n + 1)) * 4))
        for name, got, want, tol in checks:
            if want is None:
                continue
            ctx.count("compared_" + name)
            ctx.ndistinct += 1
            ctx.margin(name + "_" + fam, abs(got - want) / tol)
            if not abs(got - want) <= tol:
                if name == "entropy" and fam.startswith("binomial") and m.n > 10000 and m.n * m.pp * m.qq > 80:
                    v = m.n * m.pp * m.qq
                    if abs(got - want) <= abs(1 - 4 * m.pp * m.qq) / (10 * v) + 4 / v ** 2 + 1e-9:
                        continue
                ctx.violate("%s: %.17g from the masses, expected %.17g within %.2g" % (name, got, want, tol),
                            request=R.describe(s[name].start), profile="release")
        med = get("median")
        if med is not None:
            ctx.count("compared_median")
            a = 2 * acdf(m) + 4 * EPS * (m.n + 1)
            c = np.concatenate([[0.0], F])
            fl = int(math.floor(med)) if 0 <= med <= m.n else -5
            if fl == -5 or med * 2 != math.floor(med * 2):
                ctx.violate("the median is not an outcome or a midpoint", request=R.describe(s["median"].start), profile="release")
            elif med == fl:
                if not (c[fl + 1] >= .5 - a and c[fl] <= .5 + a):
                    ctx.violate("the distribution function is %.17g below the median and %.17g at it" % (c[fl], c[fl + 1]),
                                request=R.describe(s["median"].start), profile="release")
            elif not abs(c[fl + 1] - .5) <= a:
                j = fl + 1
                if not (fam == "categorical" and j >= 1 and j < m.n + 1 and abs(F[j] - .5) <= a and ctx.finding("K3", R.describe(s["median"].start))):
                    ctx.violate("the distribution function is %.17g at the lower half of a median between two outcomes" % c[fl + 1],
                                request=R.describe(s["median"].start), profile="release")
        if ok[s["modes"]][0]:
            modes = [float(v) for v in R.list(s["modes"].start)]
            ctx.count("compared_modes")
            top = mass.max()
            rel = 1e-9 + 64 * EPS * (m.n + 1)
            must = set(np.where(mass > 0)[0]) if False else set(int(v) for v in np.where(mass >= top)[0]) if (np.sort(mass)[-2:] if m.n else [0, 1])[0] < top * (1 - rel) else set()
            wrong = [v for v in modes if not (v == math.floor(v) and 0 <= v <= m.n) or mass[int(v)] < top * (1 - rel)]
            if wrong or not modes or not must <= set(int(v) for v in modes):
                ctx.violate("modes %r, but the largest mass is at %d" % (modes[:8], int(np.argmax(mass))),
                            request=R.describe(s["modes"].start), profile="release")
    return dict(rule=PARAM_RULE + "moments and entropy from Gauss-Legendre quadrature of the observed density over the whole support, or from all "
                     "observed masses; distribution function at the observed median; density at the observed modes; non-trivial: each comparison",
                assumptions=["quadrature error below 1e-9 of the absolute moment", "only distributions whose support can be resolved by arguments in double precision"])


# ------------------------------------------------------------------ C27 cost of sampling
WORDS = 16.0  # words of the source per sample, on average


def c27(ctx):
    b = Batch()
    plan = []
    for fam in CONT + DISC:
        ps = gen.params(fam, ctx.rng, ctx.scale(3000, 10000))
        for p in ps:
            k = ctx.scale(2, 8)
            if fam.startswith("binomial"):
                m = model(fam, p)
                v = (m.n * m.pp * m.qq) ** .5
                if m.n >= 1000 and v * v <= 80 and m.n > 1e7 or v > 1e4 or m.n < 1000 and m.n > 100:
                    k = 1
                if v > 1e5:
                    continue
            plan.append((fam, p, b.add(fam, p, "sample_script", 2.0 ** 52 + ctx.rng.integers(0, 2 ** 40, k).astype(float))))
    R = b.run(cpu=30.0)
    ok = ctx.settle(R, "release")
    for fam, p, s in plan:
        o = ok[s]
        if not o.any():
            continue
        idx = R.res["off"][s][o].astype(int)
        words, least, most = R.extra[idx], R.extra[idx + 1], R.extra[idx + 2]
        mean = float(words.sum() / (256.0 * len(words)))
        ctx.count("samples_" + fam, 256 * len(words))
        ctx.ndistinct += len(words)
        ctx.margin("words_per_sample_of_limit_" + fam, mean / WORDS)
        ctx.margin("longest_of_limit_" + fam, float(most.max()) / 400)
        if len(ctx.samples) < 8 and ctx.rng.random() < .02:
            ctx.sample(family=fam, params=list(p)[:8], words_per_sample=mean, fewest=float(least.min()), most=float(most.max()))
        i = s.start + int(np.where(o)[0][0])
        if mean > WORDS:
            ctx.violate("%.1f words of the source per sample" % mean, request=R.describe(i), profile="release")
        if most.max() > 400:
            ctx.violate("%d words of the source for one sample" % most.max(), request=R.describe(i), profile="release")
        if fam in CONT and least.min() < 1:
            ctx.violate("a sample of a continuous distribution without reading the source", request=R.describe(i), profile="release")
    return dict(rule=PARAM_RULE + "256 samples per seed from ordinary words, counting reads; non-trivial: each batch",
                assumptions=["a hundredfold margin over what rejection methods need separates the limit for one sample from chance"])
