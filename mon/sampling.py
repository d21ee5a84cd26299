"""Monitors for sampling: law, support under hostile sources, iterator histories."""
import math, os, json, shutil, subprocess, tempfile
import numpy as np
import scipy.special as sp
from scipy import stats
import gen, ref
from gen import CONT, DISC, INF, EPS
from numeric import model, newton_regime, PARAM_RULE
from vlib import Batch, SampleJob, run_samples, OK, build, scratch, HarnessError, FI

ALARM, CONFIRM = 1e-12, 1e-7


def bin_probabilities(m, edges):
    """Probabilities of (-inf, e0], (e0, e1], ..., (en, inf)."""
    F = np.asarray(m.F(m.z(edges)[0]) if hasattr(m, "F") else m.cdf(edges), dtype=float)
    F = np.where(edges >= m.hi, 1.0, np.where(edges < m.lo, 0.0, F)) if hasattr(m, "hi") else F
    return np.diff(np.concatenate([[0.0], F, [1.0]]))


def law_pvalue(bins, probs, n):
    """Smallest of three p-values (histogram, single bins, distribution function), corrected for three."""
    probs = np.clip(probs, 0, 1)
    exp = n * probs
    # 1. chi-square with pooling of sparse neighbours
    po, pe, o_, e_ = [], [], 0, 0.0
    for o, e in zip(bins, exp):
        o_, e_ = o_ + o, e_ + e
        if e_ >= 25:
            po.append(o_), pe.append(e_)
            o_, e_ = 0, 0.0
    if pe:
        po[-1] += o_
        pe[-1] += e_
    po, pe = np.array(po, dtype=float), np.array(pe)
    p1 = 1.0
    if len(po) > 1:
        p1 = float(stats.chi2.sf(((po - pe) ** 2 / pe).sum(), len(po) - 1))
    # 2. every single bin, exactly
    with np.errstate(all="ignore"):
        lo = stats.binom.cdf(bins, n, probs)
        hi = stats.binom.sf(bins - 1, n, probs)
    impossible = bool(((probs == 0) & (bins > 0)).any())
    p2 = min(1.0, 2 * float(np.nanmin(np.minimum(lo, hi))) * len(bins))
    if impossible:
        p2 = 0.0
    # 3. Kolmogorov-Smirnov on the edges
    D = np.abs(np.cumsum(bins) / n - np.cumsum(probs)).max()
    p3 = 2 * math.exp(-2 * min(D * D * n, 350))
    return min(1.0, 3 * min(p1, p2, p3)), dict(histogram=p1, single_bin=p2, distribution_function=p3)


def pairs_pvalue(pairs):
    """Independence of successive samples, given the observed margins."""
    t = np.asarray(pairs, dtype=float)
    t = t[t.sum(1) > 0][:, t.sum(0) > 0]
    n = t.sum()
    if min(t.shape) < 2 or n < 100:
        return 1.0
    e = np.outer(t.sum(1), t.sum(0)) / n
    if e.min() < 5:
        keep = t.sum(1) > 5 * math.sqrt(n)
        keep2 = t.sum(0) > 5 * math.sqrt(n)
        t = t[keep][:, keep2]
        if min(t.shape) < 2:
            return 1.0
        n = t.sum()
        e = np.outer(t.sum(1), t.sum(0)) / n
    return float(stats.chi2.sf(((t - e) ** 2 / e).sum(), (t.shape[0] - 1) * (t.shape[1] - 1)))


def continuous_edges(m, n, bins, rng):
    u = np.arange(1, bins) / bins
    tail = np.array([10.0 ** -k for k in range(2, 5 if m.fam == "cauchy" else 9)])
    with np.errstate(all="ignore"):
        e = [m.ppf(u), m.ppf(tail), m.ppf(1 - tail)]
        if m.fam in ("gaussian", "lognormal"):
            # finer than the layers of a ziggurat
            e.append(m.x(np.linspace(-4.2, 4.2, 8 * bins)))
            e.append(m.x(np.linspace(-6, 6, 97)))
    e = np.unique(np.concatenate(e))
    e = e[np.isfinite(e) & (np.abs(e) > 1e-280) if m.fam not in ("triangular", "uniform") else np.isfinite(e)]
    if m.fam in ("beta", "pert", "triangular", "uniform"):
        e = e[(e > m.lo) & (e < m.hi)]
    # An edge is usable when rounding a sample across it is invisible.
    z, d = m.z(e, 6)
    d = d + 4 * EPS * np.abs(e) * m.jac(e)
    lo, hi = m.F(z - d), m.F(z + d)
    return e[(hi - lo) < 0.003 / math.sqrt(n)]


def discrete_edges(m, bins):
    if m.n <= 600:
        return np.arange(0, m.n, dtype=float) if m.n > 0 else np.array([0.0])
    u = np.arange(1, bins) / bins
    k = np.unique(np.concatenate([m.ppf_guess(u), m.ppf_guess(np.array([1e-3, 1e-4, 1e-5, 1e-6])),
                                  m.ppf_guess(1 - np.array([1e-3, 1e-4, 1e-5, 1e-6]))]))
    return k[(k >= 0) & (k < m.n)]


def groups_of(probs, g=8):
    c = np.cumsum(probs) - probs / 2
    return np.clip((c * g).astype(int), 0, g - 1)


def make_job(fam, p, n, src, seed, bins, rng):
    m = model(fam, p)
    if fam in CONT:
        e = continuous_edges(m, n, bins, rng)
    else:
        e = discrete_edges(m, bins)
    if len(e) == 0:
        return None
    probs = bin_probabilities(m, e)
    j = SampleJob(fam, p, n, e, groups_of(probs), 8, src, seed)
    j.m, j.probs = m, probs
    return j


def describe(j, R=None):
    d = j.describe()
    d.update(source_id=j.src, nbins=len(j.edges) + 1)
    return d


def approximate(m):
    """Binomial regimes whose quantile function, and so whose sampler, is approximate."""
    return m.fam.startswith("binomial") and m.n >= 1000


def cdf_bound_excess(j):
    """For the approximate regimes: by how many standard errors the empirical
    distribution function leaves its allowed band, and whether K2 explains it."""
    m = j.m
    k = j.edges
    G = np.cumsum(j.bins)[:-1] / j.drawn
    F = m.cdf(k)
    mass = np.maximum(m.pmf(k), m.pmf(k + 1))
    sd = np.sqrt(np.maximum(F * (1 - F), 1 / j.drawn) / j.drawn)
    if newton_regime(m.fam, m):
        strict = np.maximum(F - G, G - F) / sd
        band = np.maximum((F - 1e-8 - G) / sd, (G - F - np.minimum(0.6 * m.pmf(k), m.pmf(np.minimum(k + 1, m.n))) - 1e-8) / sd)
        return float(band.max()), float(strict.max())
    t = .02 * mass + 1e-8
    band = np.maximum((F - t - G) / sd, (G - F - t) / sd)
    return float(band.max()), 0.0


def judge_jobs(ctx, jobs, retry):
    """Evaluate finished jobs; `retry(j)` repeats one with another seed."""
    suspects = []
    for j in jobs:
        ctx.evaluations += j.drawn
        fam = j.fam
        ctx.count("samples_" + fam, j.drawn)
        ctx.count("jobs_" + fam)
        if j.message:
            ctx.violate("panic while sampling: %s" % j.message[:300], job=describe(j))
            continue
        if j.nan:
            ctx.violate("%d samples are not numbers" % j.nan, job=describe(j))
            continue
        if fam in CONT:
            s = 4 * EPS * (abs(j.m.lo) + abs(j.m.hi)) if math.isfinite(j.m.hi) else 0
            lo, hi = j.m.lo - s, j.m.hi + s
        else:
            lo, hi = 0, j.m.n
        if not (j.min >= lo and j.max <= hi):
            ctx.violate("a sample lies outside the support: [%r, %r]" % (j.min, j.max), job=describe(j))
            continue
        ctx.ndistinct += int((j.bins > 0).sum())
        r = verdict(j)
        ctx.margin("law_" + fam, -math.log(max(r[0], 1e-300)) / -math.log(ALARM))
        ctx.margin("pairs_" + fam, -math.log(max(r[1], 1e-300)) / -math.log(ALARM))
        if len(ctx.samples) < 8 and ctx.rng.random() < .15:
            ctx.sample(job=describe(j), p_law=r[0], p_pairs=r[1], min=j.min, max=j.max, nonempty_bins=int((j.bins > 0).sum()))
        if min(r[0], r[1]) < ALARM:
            suspects.append((j, r))
        if r[3]:
            ctx.finding("K2", describe(j))
    if suspects:
        again = [retry(j) for j, _ in suspects[:12]]
        hung = run_samples(again)
        if hung is not None:
            raise HarnessError("the confirming run hung")
        for (j, r), k in zip(suspects, again):
            ctx.evaluations += k.drawn
            r2 = verdict(k)
            which = 0 if r[0] < ALARM else 1
            if r2[which] < CONFIRM:
                worst = np.argsort(-np.abs(j.bins - j.drawn * j.probs) / np.sqrt(np.maximum(j.drawn * j.probs, 1)))[:3]
                e = np.concatenate([[-INF], j.edges, [INF]])
                ctx.violate("samples do not follow their law (%s): p = %.3g, then %.3g with another seed" %
                            ("distribution" if which == 0 else "successive samples are dependent", r[which], r2[which]),
                            job=describe(j), tests=r[2],
                            worst=[dict(interval=[float(e[b]), float(e[b + 1])], observed=int(j.bins[b]),
                                        expected=float(j.drawn * j.probs[b])) for b in worst],
                            edges=[float(v) for v in j.edges[:64]])
            else:
                ctx.inconclusive.append("p = %.3g not confirmed (%.3g)" % (r[which], r2[which]))


def verdict(j):
    """(p of the law, p of independence, details, K2 seen)."""
    if j.fam not in CONT and approximate(j.m):
        band, strict = cdf_bound_excess(j)
        pl = float(2 * stats.norm.sf(max(band, 0)) * len(j.edges)) if band > 0 else 1.0
        return min(1.0, pl), pairs_pvalue(j.pairs), dict(excess_in_standard_errors=band), strict > 8
    pl, d = law_pvalue(j.bins, j.probs, j.drawn)
    return pl, pairs_pvalue(j.pairs), d, False


def usable(fam, p):
    if fam in ("cauchy", "gaussian", "laplace", "logistic"):
        return abs(p[0]) * EPS < 1e-12 * p[1]
    if fam in ("beta", "pert", "triangular", "uniform"):
        a, b = (p[2], p[3]) if fam == "beta" else (p[0], p[2]) if fam == "pert" else (p[0], p[1])
        return max(abs(a), abs(b)) * EPS < 1e-12 * (b - a)
    return True


def run_plan(ctx, plan):
    jobs = [make_job(fam, p, n, src, int(ctx.rng.integers(1, 2 ** 62)), bins, ctx.rng) for fam, p, n, src, bins in plan]
    jobs = [j for j in jobs if j is not None]
    left = list(jobs)
    while left:
        hung = run_samples(left)
        if hung is None:
            break
        j = left[hung]
        ctx.violate("sampling did not progress for 60 s of CPU time", job=describe(j))
        jobs.remove(j)
        left = left[:hung] + left[hung + 1:]
        if len([v for v in ctx.violations]) > 2:
            return
    if not jobs:
        return

    def retry(j):
        k = SampleJob(j.fam, j.params, j.n, j.edges, j.coarse, j.groups, j.src, int(ctx.rng.integers(1, 2 ** 62)))
        k.m, k.probs = j.m, j.probs
        return k
    judge_jobs(ctx, jobs, retry)


MAIN = {
    "gaussian": [(0., 1.)], "cauchy": [(0., 1.)], "exponential": [(1.,)], "laplace": [(0., 1.)], "logistic": [(0., 1.)],
    "lognormal": [(0., 1.)], "uniform": [(0., 1.)], "triangular": [(0., 1., .3)], "pert": [(0., .3, 1.), (0., .9, 1.)],
    "gamma": [(.5, 1.), (1., 1.), (2.5, 1.), (20., 1.)], "beta": [(2., 3., 0., 1.), (.5, .5, 0., 1.), (1., 4., 0., 1.), (.3, 6., 0., 1.)],
}


def word_map(ctx, fams, count):
    """Samplers that turn one word into a sample monotonously: then the law fixes the
    sample of every word, to the resolution of the words, and no statistics are needed."""
    b = Batch()
    plan = []
    for fam in fams:
        for p in gen.params(fam, ctx.rng, count):
            if fam in CONT and not usable(fam, p) or fam.startswith("binomial") and p[0] >= 1000:
                continue
            m = model(fam, p)
            u = [ctx.rng.random(24), gen.lu(ctx.rng, 1e-15, .1, 8), 1 - gen.lu(ctx.rng, 1e-15, .1, 8), [0, 2.0 ** -53, .5, 1 - 2.0 ** -53]]
            if fam in DISC:  # on either side of the jumps
                c = m.cdf(np.arange(min(m.n, 400)) + 0.0)
                c = ctx.rng.choice(c, min(len(c), 12)) if len(c) else c
                u += [c, c - 1e-9, c + 1e-9, c * (1 - 1e-6)]
            if fam.startswith("binomial"):  # closer to the ends, sums of masses are not monotonous
                u = [np.clip(v, 1e-12, 1 - 1e-12) for v in u]
            u = np.unique(np.clip(np.floor(np.concatenate(u) * 2.0 ** 53) * 2.0 ** -53, 0, 1 - 2.0 ** -53))
            plan.append((fam, p, m, u, b.add(fam, p, "sample_word", u)))
    R = b.run(cpu=20.0)
    ok = ctx.settle(R, "release")
    for fam, p, m, u, s in plan:
        if not ok[s].all():
            continue
        got = np.array([R.list(i)[:2] for i in range(s.start, s.stop)])
        x, reads = got[:, 0], got[:, 1]
        if (reads != 1).any() or np.isnan(x).any():
            ctx.count("several_words_" + fam)
            continue
        with np.errstate(all="ignore"):
            t = np.where(np.isfinite(x), 64 * EPS * (np.abs(x) + (abs(getattr(m, "loc", 0.0)) if fam in CONT else 0)), 0)
            if fam in CONT and math.isfinite(m.hi) and math.isfinite(m.lo):
                t = t + 8 * EPS * (abs(m.lo) + abs(m.hi))
            up, down = (x[1:] >= x[:-1] - t[1:]).all(), (x[1:] <= x[:-1] + t[1:]).all()
        if up == down:
            ctx.count("not_monotonous_" + fam if not up else "constant_" + fam)
            continue
        v = u if up else 1 - u
        if fam in CONT:
            with np.errstate(all="ignore"):
                lo, hi = m.F(m.z(x - t)[0]), m.F(m.z(x + t)[0])
                lo, hi = np.where(x - t >= m.hi, 1.0, np.where(x - t <= m.lo, 0.0, lo)), np.where(x + t >= m.hi, 1.0, np.where(x + t <= m.lo, 0.0, hi))
            a = 1e-12
        else:
            lo, hi = np.where(x > 0, m.cdf(x - 1), 0.0), m.cdf(x)
            a = 1e-10 if fam.startswith("binomial") else 1e-12
        bad = ~((v >= lo - a) & (v <= hi + a))
        ctx.count("words_mapped_" + fam, len(u))
        ctx.ndistinct += len(u)
        for i in np.where(bad)[0][:3]:
            ctx.violate("the sampler maps words to samples monotonously, but the word at the fraction %.17g of their range to a sample whose "
                        "cumulative probability lies between %.17g and %.17g" % (v[i], lo[i], hi[i]), request=R.describe(s.start + i), profile="release")


def c13(ctx):
    word_map(ctx, CONT, ctx.scale(1000, 3000))
    plan = []
    big = ctx.scale(1 << 27, 1 << 30)
    for fam in CONT:
        for p in MAIN[fam]:
            plan.append((fam, p, big // len(MAIN[fam]), 0, 512))
            plan.append((fam, p, big // 8 // len(MAIN[fam]), 1, 128))
    plan.append(("gaussian", (0., 1.), ctx.scale(1 << 31, 1 << 34), 0, 512))
    for fam in CONT:
        ps = [p for p in gen.params(fam, ctx.rng, ctx.scale(40, 400)) if usable(fam, p)]
        if fam == "beta":
            ps = [p for p in ps if min(p[:2]) >= .02]
        for p in ps:
            plan.append((fam, p, ctx.scale(1 << 21, 1 << 23), int(ctx.rng.integers(0, 2)), 64))
    run_plan(ctx, plan)
    return dict(rule=PARAM_RULE + "per distribution 2^21 (thorough 2^23) samples, 2^27 (2^30) for one to four standard ones and 2^31 (2^34) for "
                     "the standard Gaussian, from two generators, and, for samplers that map one word to a sample monotonously, the samples of chosen words "
                     "against the exact quantiles; evaluations are samples drawn; non-trivial: a histogram bin with "
                     "observations", assumptions=
                ["xoshiro256** and, as a second opinion, the library's default source are good sources of randomness",
                 "the reference distribution function is exact to 1e-10", "an alarm needs p < 1e-12, confirmed with another seed at p < 1e-7"])


MAIN_D = {
    "bernoulli": [(.3,), (.5,)], "bernoulli_f": [(.2,)], "binomial": [(10., .3), (40., .5)], "binomial_f": [(12., .4)],
    "categorical": [(.1,) * 10, (.2, 0., .3, 0., .5), (.6, .3, .1)],
}


def c14(ctx):
    word_map(ctx, DISC, ctx.scale(1600, 5000))
    plan = []
    for fam in DISC:
        for p in MAIN_D[fam]:
            n = ctx.scale(1 << 26, 1 << 29) >> (2 if fam.startswith("binomial") else 0)
            plan.append((fam, p, n, 0, 512))
            plan.append((fam, p, n >> 2, 1, 512))
        ps = gen.params(fam, ctx.rng, ctx.scale(60, 300))
        if fam in ("binomial", "binomial_f"):
            ps += gen.EDGE_BINOMIAL
            for n in range(1, 140):  # every small number of trials, coarsely
                for p in (.5, float(ctx.rng.random())):
                    plan.append((fam, (float(n), p), ctx.scale(1 << 13, 1 << 16), 0, 64))
        for p in ps:
            if fam.startswith("binomial"):
                n = int(p[0])
                v = n * p[1] * (1 - p[1])
                cost = 1 + v ** .5 / 500 if n >= 1000 and v > 80 else (n + 10) / 30 if n < 1000 else 60 + v ** .5
                if n > 1e7 and v <= 80:
                    cost *= 4
                k = int(ctx.scale(1 << 20, 1 << 23) / cost)
                k = max(k, 1 << 14 if cost < 100 else 1 << 12)
            else:
                k = int(ctx.scale(1 << 21, 1 << 24) / (1 + len(p) / 300))
            plan.append((fam, p, k, int(ctx.rng.integers(0, 2)), 128))
    run_plan(ctx, plan)
    return dict(rule=PARAM_RULE + "per distribution 2^14 to 2^21 (thorough up to 2^24) samples and 2^24 to 2^26 (2^29) for standard ones, from two "
                     "generators, and, for samplers that map one word to an outcome monotonously, the outcomes of words around every jump; "
                     "evaluations are samples drawn; non-trivial: an outcome (or range of outcomes) with observations",
                assumptions=["as C13", "binomial distributions with n >= 1000 are sampled through their approximate quantile function: the empirical "
                             "distribution function must stay within 2% of a jump (variance above 80), or within the band of finding K2"])


# ------------------------------------------------------------------ C15 hostile sources
def c15(ctx):
    for k in range(ctx.scale(1, 6)):  # in rounds, to bound the memory
        hostile(ctx, k, ctx.scale(300, 80))
        if len(ctx.violations) > 20:
            break
    return dict(rule=PARAM_RULE + "every triple of 16 extreme words (0, all ones, powers of two and their neighbours, corner words of ziggurat layers) "
                     "at the start of the stream for the families that read several words, and random hostile prefixes; one sample per script; non-trivial: each",
                assumptions=["a sample may exceed a bounded support by a few ulp of its ends", "infinity is in the closed support of an unbounded family",
                             "reading more than 100000 words for one sample counts as not terminating"])


def hostile(ctx, round_, sets):
    b = Batch()
    plan = []
    n_random = ctx.scale(800, 6000)
    every = np.arange(4096)
    for fam in CONT + DISC:
        ps = gen.params(fam, ctx.rng, sets)
        if round_:
            ps = ps[len(gen.FIXED[fam]) - 5:]
        if fam in ("binomial", "binomial_f"):
            # the cost of a sample grows with n in some regimes
            ps = [p for p in ps + gen.EDGE_BINOMIAL if p[0] < 1e6]
        for p in ps:
            few = fam.startswith("binomial") and p[0] > 300
            # Families that read one word per sample need no triples.
            one = fam not in ("beta", "pert", "gamma", "gaussian", "lognormal", "cauchy")
            if one:
                scripts = every[:16 * 16 * 16:256] if few else np.concatenate([every[::256], every[1::512]])
            else:
                scripts = every if (ctx.deep or len(p) and p == ps[0]) else \
                    np.concatenate([every[::17], ctx.rng.choice(every, 500, replace=False)])
            k = n_random // (8 if few else 1)
            seeds = np.concatenate([scripts, 4096 + ctx.rng.integers(0, 2 ** 50, k)]).astype(float)
            plan.append((fam, p, b.add(fam, p, "sample_script", np.unique(seeds))))
    R = b.run(cpu=20.0)
    ok = ctx.settle(R, "release")
    off = R.res["off"]
    for fam, p, s in plan:
        o = ok[s]
        idx = off[s][o].astype(int)
        x, reads = R.extra[idx], R.extra[idx + 1]
        ctx.count("samples_" + fam, len(x))
        ctx.ndistinct += len(x)
        ctx.margin("words_read_of_limit_" + fam, reads.max() / 1e5 if len(reads) else 0)
        if (reads < 1).any() and not (fam == "categorical" or fam.startswith("binomial") or fam == "bernoulli"):
            pass
        m = model(fam, p)
        bad = np.isnan(x)
        what = "not a number"
        if fam in CONT:
            sl = 4 * EPS * (abs(m.lo) + abs(m.hi)) if math.isfinite(m.hi) else 0.0
            out = (x < m.lo - sl) | (x > m.hi + sl)
            ctx.count("infinite_samples", int(np.isinf(x).sum()))
        else:
            out = ~((x >= 0) & (x <= m.n) & (x == np.floor(x)))
            if fam == "categorical":
                v = np.asarray(p)
                out |= v[np.clip(np.nan_to_num(x), 0, m.n).astype(int)] == 0
            else:
                if m.pp == 0 or (m.fam == "binomial" and m.n == 0):
                    out |= x != 0
                if m.qq == 0:
                    out |= x != m.n
        if len(ctx.samples) < 8 and ctx.rng.random() < .05 and len(x):
            ctx.sample(family=fam, params=list(p)[:8], script=float(R.req[s]["arg"][o][0]), observed=float(x[0]), words_read=float(reads[0]))
        pos = np.arange(s.start, s.stop)[o]
        for i in pos[bad][:2]:
            ctx.violate("sample is not a number", request=R.describe(i), profile="release")
        for i in pos[out & ~bad][:2]:
            ctx.violate("sample outside the support or of zero probability", request=R.describe(i), profile="release")


# ------------------------------------------------------------------ C16 iterator histories
def histories(ctx, n, ops, profile="release"):
    exe = build(profile, "vhist")
    d = tempfile.mkdtemp(prefix="vmon-", dir=scratch())
    try:
        sets = []
        for fam in CONT + DISC:
            ps = gen.params(fam, ctx.rng, ctx.scale(8, 40))
            if fam.startswith("binomial"):
                ps = [p for p in ps if p[0] < 2000]
            sets += [(fam, p) for p in ps]
        with open(d + "/sets.txt", "w") as f:
            for fam, p in sets:
                f.write("%d %s\n" % (FI[fam], " ".join("%016x" % np.float64(v).view(np.uint64) for v in p)))
        seed = int(ctx.rng.integers(1, 2 ** 62))
        try:
            r = subprocess.run([exe, "history", d + "/sets.txt", str(seed), str(n), str(ops), str(ctx.scale(1 << 22, 1 << 26)), str((1 << 32) + 77777)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=ctx.scale(240, 800), text=True)
        except subprocess.TimeoutExpired:
            raise HarnessError("iterator histories timed out")
        return sets, seed, r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c16(ctx):
    n = ctx.scale(40, 400)
    sets, seed, rc, out = histories(ctx, n, ctx.scale(40, 80))
    lines = out.strip().split("\n")
    summary = None
    for line in lines:
        if line.startswith("MISMATCH "):
            ctx.violate("iterator history differs from direct sampling: " + line[9:][:600], seed_of_histories=seed, history=line)
        elif line.startswith("SUMMARY "):
            summary = json.loads(line[8:])
        elif line.startswith("HISTORY ") and len(ctx.samples) < 8:
            ctx.sample(history=line[8:][:400])
    if summary is None:
        if rc != 0 and not ctx.nviol:
            ctx.violate("the process running the iterator histories died (%s): %s" % (rc, out[-1500:]), seed_of_histories=seed)
            ctx.evaluations += 1
        return dict(rule="iterator histories", assumptions=[])
    ctx.evaluations = summary["operations"]
    ctx.ndistinct = summary["distinct_histories"]
    for k, v in summary.items():
        if isinstance(v, int):
            ctx.count(k, v)
    return dict(rule=PARAM_RULE + "random histories of iterator operations (next, take, nth, skip, step_by, by_ref, zip, take_while, fold, for, peekable, "
                     "dropping and recreating, two samplers on one source, cloned source) on each, runs of millions of items per family and one of more than 2^32, plus user-defined distributions and sources; every yielded "
                     "value and the number of words read are compared after every operation; non-trivial: distinct history with at least one item",
                assumptions=["direct calls of sample on an identically seeded source are the specification"])
