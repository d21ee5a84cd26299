"""System properties: totality (C17), rejection of invalid input (C21), purity
(C23), and memory safety (C24)."""
import os, re, shutil, subprocess, tempfile, time
import numpy as np
import gen
import vlib
from gen import CONT, DISC, INF, EPS, lu
from vlib import (Batch, OK, PANIC, HANG, CTOR_PANIC, CRASH, LEAK, UNSUPPORTED, NOT_RUN, STATUS, HarnessError)

NAN = float("nan")
STATS = ["mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "median", "modes", "params"]


# ------------------------------------------------------------------ workloads
def wide_params(fam, rng):
    """Valid parameters from the whole range of double precision."""
    def scale():
        return float(rng.choice([lu(rng, 1e-3, 1e3), lu(rng, 1e-300, 1e300), 5e-324, 1.7e308, 2.0 ** -1022, 1.0]))

    def loc():
        return float(rng.choice([0.0, -1.0, 1.0, rng.choice([-1, 1]) * lu(rng, 1e-300, 1e300), 1e308, -1e308, -0.0]))

    def interval():
        while True:
            u = rng.random()
            if u < .5:
                a, b = gen._interval(rng)
            elif u < .7:
                a = loc()
                b = float(np.nextafter(a, INF))
            else:
                a, b = sorted([loc() / 8, loc() / 8])
            if a < b and b - a < INF:
                return float(a), float(b)

    if fam in ("bernoulli", "bernoulli_f"):
        return (float(rng.choice([5e-324, 2.0 ** -1022, 1 - 2.0 ** -53, lu(rng, 1e-300, 1), rng.random()])),)
    if fam == "beta":
        def shape():
            return float(rng.choice([lu(rng, .02, 2e3), lu(rng, .3, 30), float(rng.integers(1, 8)), 1 + EPS, 1 - EPS]))
        while True:
            al, be = shape(), shape()
            if max(al, be) <= 1e4 * min(al, be):
                return (al, be) + interval()
    if fam in ("binomial", "binomial_f"):
        n = float(rng.choice([rng.integers(0, 40), rng.integers(990, 1010), lu(rng, 1, 1e5), lu(rng, 1e4, 1e7), lu(rng, 1e7, 1e19), 2.0 ** 31, 2.0 ** 32,
                              2.0 ** 53, 2.0 ** 63, 1.9e19]))
        n = np.floor(n)
        p = float(rng.choice([0.0, 1.0, .5, rng.random(), lu(rng, 1e-300, 1), 1 - lu(rng, 1e-16, 1), 5e-324, 1 - 2.0 ** -53, min(1.0, lu(rng, .1, 200) / max(n, 1)),
                              1 - min(1.0, lu(rng, .1, 200) / max(n, 1))]))
        # The incomplete beta function takes a number of steps that grows with the deviation.
        if n * p * (1 - p) > 1e11:
            n = np.floor(1e11 / (p * (1 - p)))
        return (float(n), p)
    if fam == "categorical":
        return tuple(gen.probability_vector(rng))
    if fam in ("cauchy", "gaussian", "laplace", "logistic", "lognormal"):
        return (loc(), scale())
    if fam == "exponential":
        return (scale(),)
    if fam == "gamma":
        return (float(rng.choice([lu(rng, .01, 1), lu(rng, 1, 1e5), lu(rng, .5, 30), 1.0, 1 - EPS])), scale())
    a, b = interval()
    if fam == "uniform":
        return (a, b)
    c = float(rng.choice([a, b, a + (b - a) * rng.random(), np.nextafter(a, INF), np.nextafter(b, -INF)]))
    c = min(max(c, a), b)
    if fam == "triangular":
        return (a, b, c)
    c = a + (b - a) * float(rng.choice([rng.random(), lu(rng, 1e-3, 1), 1 - lu(rng, 1e-3, 1)]))
    return (a, c, b) if a < c < b else (0., float(rng.uniform(.01, .99)), 1.)


def reals(fam, p, rng, n):
    """Arguments over the whole line, most of them near where something happens."""
    if fam in ("bernoulli", "bernoulli_f"):
        c, w = 0.0, 2.0
    elif fam in ("binomial", "binomial_f"):
        q = p[1] if fam == "binomial" else 1 - p[1]
        c, w = p[0] * q, 10 * np.sqrt(p[0] * q * (1 - q)) + 2
    elif fam == "categorical":
        c, w = 0.0, float(len(p))
    elif fam in ("exponential", "gamma"):
        c, w = 0.0, (1 / p[0] if p[0] > 1e-300 else 1e300) if fam == "exponential" else min(p[0], 1e300) * min(p[1], 1e300)
    elif fam == "lognormal":
        c, w = 0.0, float(np.exp(np.clip(p[0], -700, 700)))
    elif fam in ("beta", "pert", "triangular", "uniform"):
        a, b = (p[2], p[3]) if fam == "beta" else (p[0], p[2]) if fam == "pert" else (p[0], p[1])
        c, w = a, b - a
    else:
        c, w = p[0], p[1]
    with np.errstate(all="ignore"):
        x = [c + w * rng.random(n), c + w * rng.normal(0, 2, n), c + w * rng.choice([-1, 1], n) * lu(rng, 1e-12, 1e6, n), rng.choice([-1, 1], 2) * lu(rng, 1e-300, 1e300, 2),
             [c, c + w, np.nextafter(c, INF), np.nextafter(c, -INF), np.nextafter(c + w, INF), np.nextafter(c + w, -INF), 0.0, -0.0, 1.0, -1.0, INF, -INF, 1e308, -1e308, 5e-324]]
        x = np.concatenate([np.asarray(v, dtype=float) for v in x])
        if fam in DISC:
            x = np.concatenate([x, np.floor(x)])
    return x[~np.isnan(x)]


def outcomes(fam, p, rng, n):
    if fam in ("bernoulli", "bernoulli_f"):
        return np.array([0., 1., 2., 255., 7.])
    if fam == "categorical":
        return np.unique(rng.integers(0, len(p), n)).astype(float)
    x = np.abs(reals(fam, p, rng, n))
    N = p[0]
    return np.unique(np.floor(np.concatenate([x[np.isfinite(x)], [0, 1, 2, N, max(N - 1, 0), N + 1, N + 2, 1.8e19, N // 2, 15, 16]])))


def queries(fam, p, rng, n=6, entropy=True):
    """(operation, arguments) pairs covering everything the family offers."""
    out = [("cdf", reals(fam, p, rng, n)), ("pdf", outcomes(fam, p, rng, n) if fam in DISC else reals(fam, p, rng, n))]
    if fam != "gamma":
        u = gen.probabilities(rng, n, fam=fam)
        out.append(("inverse", np.concatenate([rng.choice(u, min(len(u), 3 * n), replace=False), [0., 1., 5e-324, 1 - 2. ** -53, .5]])))
    out += [(s, [0.0]) for s in STATS if s != "entropy" or entropy]
    out.append(("sample", rng.integers(0, 2 ** 52, 2).astype(float)))
    out.append(("sample_script", np.concatenate([rng.integers(0, 4096, n), rng.integers(4096, 2 ** 52, n)]).astype(float)))
    return out


# ------------------------------------------------------------------ C17
def c17(ctx):
    stats = {}
    for profile in ("checked", "release"):
        rng = np.random.default_rng([ctx.seed, 17, profile == "release"])
        b = Batch()
        for fam in CONT + DISC:
            ps = [tuple(float(v) for v in p) for p in gen.FIXED[fam]]
            ps = [ps[i] for i in rng.permutation(len(ps))[:ctx.scale(60, 400)]]
            for k in range(ctx.scale(3000, 15000)):
                ps.append(gen.random_params(fam, rng) if k % 5 in (1, 3) else wide_params(fam, rng) if k % 5 else gen.steered_params(fam, rng))
            for p in dict.fromkeys(tuple(float(v) for v in q) for q in ps):
                for op, args in queries(fam, p, rng, 4):
                    b.add(fam, p, op, args)
        R = b.run(profile, cpu=6.0)
        ctx.settle(R, profile)
        stats[profile] = {STATUS[s]: int((R.status == s).sum()) for s in np.unique(R.status)}
        ctx.ndistinct += int((R.status == OK).sum())
        for i in rng.choice(len(R.status), 4):
            ctx.sample(profile=profile, **R.describe(i))
        if ctx.nviol:
            break
    return dict(rule="random valid parameters over moderate and extreme ranges (least positive to 1e308 scales, adjacent endpoints, zero to 1.9e19 trials), every operation, arguments over the "
                     "whole line including infinities, ordinary and hostile sources; both profiles; non-trivial: every request that returned",
                assumptions=["a request that needs more than 6 s of CPU time is repeated alone with 60 s before it counts as a hang"], extra=dict(outcomes=stats))


# ------------------------------------------------------------------ C21
def invalid_params(fam, p, rng):
    """Parameter sets that break the documented contract in one place."""
    p = list(p)
    nonpos = [0.0, -0.0, -1.0, -5e-324, -float(lu(rng, 1e-300, 1e300)), NAN, -INF]
    outside = [-5e-324, -float(lu(rng, 1e-300, 1e300)), float(np.nextafter(1, 2)), 1 + float(lu(rng, 1e-15, 1e300)), NAN, INF, -INF, -1.0, 2.0]

    def put(i, v):
        q = list(p)
        q[i] = float(v)
        return tuple(q)

    if fam in ("bernoulli", "bernoulli_f"):
        return [("not a probability strictly between 0 and 1", (v,)) for v in outside + [0.0, -0.0, 1.0]]
    if fam in ("binomial", "binomial_f"):
        return [("not a probability", put(1, v)) for v in outside]
    if fam == "categorical":
        out = [("empty", ())]
        k = len(p)
        for _ in range(3):
            i = int(rng.integers(0, k))
            out += [("does not sum to one", put(i, min(1.0, p[i] + d) if p[i] + d <= 1 and rng.random() < .5 else max(0.0, p[i] - d)))
                    for d in (1e-9, 1e-6, float(lu(rng, 1e-10, .5))) if p[i] >= d]
            out += [("an entry is not a number", put(i, NAN)), ("an entry is infinite", put(i, INF)), ("an entry is negative", put(i, -.25)), ("an entry exceeds one", put(i, 1.5))]
        # entries outside [0, 1] that still sum to one
        d = float(rng.choice([.5, .25, 1.0, 1e-6]))
        out += [("a negative entry, the sum being one", tuple([-d, d] + p)), ("a negative entry at the end, the sum being one", tuple(p + [d, -d])),
                ("entries 2 and -1", (2.0, -1.0)), ("entry above one, the sum being one", (1 + d, -d)), ("all zero", tuple([0.0] * k)), ("twice a probability vector", tuple([v * 2 for v in p])),
                ("a probability vector with one more entry", tuple(p + [float(lu(rng, 1e-9, 1))]))]
        return [(w, q) for w, q in out if _invalid_vector(q)]
    if fam in ("cauchy", "gaussian", "laplace", "logistic", "lognormal"):
        return [("scale is not positive", put(1, v)) for v in nonpos]
    if fam == "exponential":
        return [("rate is not positive", put(0, v)) for v in nonpos]
    if fam == "gamma":
        return [("shape is not positive", put(0, v)) for v in nonpos] + [("scale is not positive", put(1, v)) for v in nonpos]
    if fam in ("beta", "uniform", "triangular"):
        ia, ib = (2, 3) if fam == "beta" else (0, 1)
        a, b = p[ia], p[ib]
        out = []
        if fam == "beta":
            out += [("shape is not positive", put(j, v)) for j in (0, 1) for v in nonpos]
        def ends(x, y):
            q = list(p)
            q[ia], q[ib] = x, y
            if fam == "triangular":
                q[2] = x
            return tuple(q)
        out += [("reversed interval", ends(b, a)), ("empty interval", ends(a, a)), ("empty interval", ends(b, b)), ("end is not a number", ends(NAN, b)), ("end is not a number", ends(a, NAN)),
                ("barely reversed interval", ends(float(np.nextafter(a, INF)), a))]
        if fam == "triangular":
            out += [("mode below the interval", put(2, np.nextafter(a, -INF))), ("mode above the interval", put(2, np.nextafter(b, INF))), ("mode below the interval", put(2, a - (b - a))),
                    ("mode above the interval", put(2, b + (b - a))), ("mode is not a number", put(2, NAN)), ("mode is infinite", put(2, INF)), ("mode is infinite", put(2, -INF))]
        return out
    if fam == "pert":
        a, b, c = p
        return [("not in ascending order", q) for q in ((b, a, c), (a, c, b), (c, b, a), (a, a, c), (a, c, c), (b, b, b), (c, a, b), (b, c, a), (a, float(np.nextafter(a, -INF)), c),
                                                        (a, float(np.nextafter(c, INF)), c), (NAN, b, c), (a, NAN, c), (a, b, NAN))]
    raise KeyError(fam)


def _invalid_vector(q):
    q = np.asarray(q, dtype=float)
    return bool(np.isnan(q).any() or (q < 0).any() or (q > 1).any() or not abs(q.sum() - 1) < 1e-11 or len(q) == 0)


def c21(ctx):
    b = Batch()
    rng = ctx.rng
    plan, probs, masses, accepted = [], [], [], []
    bad_p = [-5e-324, -1e-300, -0.5, float(np.nextafter(1, 2)), 1.5, 1e300, -1e300, INF, -INF, NAN]
    for fam in CONT + DISC:
        ps = gen.params(fam, rng, ctx.scale(1000, 20000))
        for p in ps:
            if fam == "categorical" and len(p) > 64:
                continue
            accepted.append((b.add(fam, p, "new"), fam))
            for why, q in invalid_params(fam, p, rng):
                plan.append((b.add(fam, q, "new"), fam, why))
            if fam != "gamma":
                v = bad_p + [-float(lu(rng, 1e-300, 1e300)), 1 + float(lu(rng, 1e-15, 1e300))]
                probs.append((b.add(fam, p, "inverse", v), fam))
            if fam == "categorical":
                masses.append((b.add(fam, p, "pdf", [len(p), len(p) + 1.0, 1e6, 1.8e19]), fam))
    for v in [(), (1.0,), (NAN, 1.0), (2.0, 2.0), (1.0, 1.0, 1.0), (0.0, 0.0), (1.0, NAN)]:
        plan.append((b.add("gaussian_from_iter", v, "new"), "gaussian_from_iter", "no deviation can be inferred"))
    R = b.run("checked", cpu=5.0)
    seen = {}
    ctx.evaluations += int((R.status != NOT_RUN).sum())
    for s, fam, why in plan:
        i = s.start
        ctx.count("corrupted_parameters")
        seen[fam + ": " + why] = seen.get(fam + ": " + why, 0) + 1
        if R.status[i] != CTOR_PANIC:
            ctx.violate("%s accepts invalid parameters (%s) in a debug build" % (fam, why), request=R.describe(i), expected="a panic", profile="checked")
    for sets, kind, what in ((probs, "corrupted_probabilities", "inverse accepts what is not a probability"), (masses, "masses_beyond_the_categories", "mass accepts what is not a category")):
        for s, fam in sets:
            for i in range(s.start, s.stop):
                ctx.count(kind)
                if R.status[i] != PANIC:
                    ctx.violate("%s: %s in a debug build" % (fam, what), request=R.describe(i), expected="a panic", profile="checked")
    for s, fam in accepted:
        ctx.count("valid_parameters_accepted", int(R.status[s.start] == OK))
        if R.status[s.start] != OK:
            ctx.violate("%s rejects valid parameters: a rejection means nothing then" % fam, request=R.describe(s.start), expected="acceptance", profile="checked")
    ctx.ndistinct = len(plan) + sum(s.stop - s.start for s, _ in probs)
    for i in rng.choice(len(plan), 8):
        ctx.sample(why=plan[i][2], **R.describe(plan[i][0].start))
    return dict(rule="valid parameter sets corrupted in one place (zero, negative, NaN, reversed, touching, adjacent floats, sums off by 1e-9 and up, negative entries whose sum is one), "
                     "quantile functions asked for -5e-324, 1 + 2^-52, infinities, NaN and random values outside; non-trivial: each",
                assumptions=["a panic while constructing or answering is a rejection", "categorical sums within 1e-11 of one are not judged"], extra=dict(kinds=seen))


# ------------------------------------------------------------------ C23
def purity_batch(rng, per_family, n, binomial_cap=None):
    """Every family, valid parameters, all operations; every request twice."""
    reqs = []
    for fam in CONT + DISC:
        ps = [tuple(float(v) for v in p) for p in gen.FIXED[fam]]
        ps = [ps[i] for i in rng.permutation(len(ps))[:per_family // 2]] + [gen.random_params(fam, rng) for _ in range(per_family - per_family // 2)]
        for p in dict.fromkeys(tuple(float(v) for v in q) for q in ps):
            if binomial_cap and fam.startswith("binomial") and p[0] > binomial_cap:
                continue
            for op, args in queries(fam, p, rng, n):
                args = np.asarray(args, dtype=float)
                args = rng.choice(args, min(len(args), 2 * n + 2), replace=False)
                reqs += [(fam, p, op, float(a)) for a in args]
    return reqs


def fill(reqs):
    b = Batch()
    for fam, p, op, a in reqs:
        b.add(fam, p, op, [a])
    return b


def digest(R, i):
    """The answer as bits; NaNs are all one."""
    v = R.list(i)
    return tuple("nan" if x != x else np.float64(x).tobytes() for x in v)


def shared_run(kind, b, seed, threads, rounds, timeout):
    """Returns (exit code, output, evidence line, mismatches)."""
    exe, out = vlib.build_variant(kind)
    if exe is None:
        return None, out, None, []
    d = tempfile.mkdtemp(prefix="vmon-", dir=vlib.scratch())
    try:
        np.concatenate(b.blocks).tofile(d + "/req.bin")
        np.concatenate(b.pool).astype("<f8").tofile(d + "/pool.bin")
        e = dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4")
        try:
            r = subprocess.run([exe, d + "/req.bin", d + "/pool.bin", d + "/out", str(seed), str(threads), str(rounds)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            return "timeout", "", None, []
        text = r.stdout.decode("utf-8", "replace")
        lines = open(d + "/out").read().split("\n") if os.path.exists(d + "/out") else []
        return r.returncode, text, lines[0] if lines else None, [l.split("\t") for l in lines[1:] if l]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c23(ctx):
    rng = ctx.rng
    reqs = purity_batch(rng, ctx.scale(24, 700), 4)
    # the reference execution: one thread, a fresh distribution for every request
    b = fill(reqs)
    A = b.run("release", fresh=True, threads=1, cpu=6.0)
    ctx.evaluations += int((A.status == OK).sum())
    usable = (A.status == OK) | (A.status == PANIC)
    if (A.status == HANG).any() or not usable.any():
        ctx.inconclusive.append("%d requests of the reference execution did not return" % int((A.status == HANG).sum()))
    ref = [digest(A, i) if A.status[i] == OK else None for i in range(len(reqs))]
    n = len(reqs)
    # 1. other histories: reused, interleaved, reversed, repeated, cloned, checked
    twice = np.concatenate([rng.permutation(n), rng.permutation(n)])
    grouped = np.concatenate([rng.permutation(n) for _ in range(1)])
    grouped = grouped[np.lexsort((rng.random(n), np.array([reqs[i][1].__hash__() % 100003 for i in grouped])))]
    runs = [("reused, in order", np.arange(n), dict()), ("reused, reversed", np.arange(n)[::-1], dict()), ("one distribution at a time, its queries shuffled", grouped, dict()),
            ("interleaved at random, every query twice", twice, dict()), ("interleaved, on one thread", rng.permutation(n), dict(threads=1)),
            ("clones", rng.permutation(n), dict(extra_opts=["--clone"])), ("build with debug assertions and overflow checks", np.arange(n), dict(profile="checked")),
            ("build with debug assertions, shuffled", rng.permutation(n), dict(profile="checked", fresh=True))]
    for name, order, opts in runs:
        opts = dict(opts)
        prof = opts.pop("profile", "release")
        bb = fill([reqs[i] for i in order])
        R = bb.run(prof, cpu=6.0, **opts)
        same = 0
        for j, i in enumerate(order):
            if ref[i] is None or R.status[j] in (HANG, NOT_RUN):
                continue
            if R.status[j] == OK and digest(R, j) == ref[i]:
                same += 1
                continue
            if R.status[j] == LEAK:
                continue
            ctx.violate("the answer depends on the circumstances (%s): alone it was %s" % (name, [float(x) for x in A.list(i)[:6]]), request=R.describe(j),
                        expected=[float(x) for x in A.list(i)[:16]], history=name, profile=prof)
        ctx.count("agreeing: " + name, same)
        ctx.evaluations += same
        ctx.ndistinct += same
    # 2. shared among threads
    small = [reqs[i] for i in sorted(rng.permutation(n)[:ctx.scale(12000, 40000)]) if A.status[i] == OK]
    rc, out, line, wrong = shared_run("share", fill(small), ctx.seed, 8, ctx.scale(6, 40), 600)
    if rc is None:
        if "cannot be shared between threads" in out or "cannot be sent between threads" in out:
            ctx.violate("distributions can no longer be shared among threads", compiler_output=out[-3000:])
        else:
            raise HarnessError("the crate of shared distributions does not compile: " + out[-1500:])
    else:
        interpret(ctx, "8 threads", rc, out, line, wrong, small)
    # 3. the same under ThreadSanitizer
    reqs3 = [r for r in purity_batch(rng, ctx.scale(6, 20), 3, 1e5)]
    rc, out, line, wrong = shared_run("tsan", fill(reqs3), ctx.seed + 1, 6, ctx.scale(3, 12), 600)
    if rc is None or rc == "timeout" or "FATAL: ThreadSanitizer" in out:
        ctx.inconclusive.append("ThreadSanitizer: " + ("timeout" if rc == "timeout" else out[-400:]))
    else:
        interpret(ctx, "ThreadSanitizer", rc, out, line, wrong, reqs3)
    for i in rng.choice(n, 6):
        ctx.sample(**A.describe(i))
    return dict(rule="all operations of all families on random parameters; each execution (reused, reversed, interleaved, repeated, cloned after which the original is dropped, other build profile, "
                     "shared among 8 threads) is compared bit for bit with a single-threaded execution on fresh distributions; non-trivial: an answer compared",
                assumptions=["NaN payloads are not compared", "thread interleavings are those the scheduler produced (see the number of overlapping evaluations)"])


def interpret(ctx, name, rc, out, line, wrong, reqs):
    if "WARNING: ThreadSanitizer" in out:
        ctx.violate("data race: " + out[out.index("WARNING: ThreadSanitizer"):][:1500], tool=name)
    elif rc != 0:
        raise HarnessError("shared execution failed (%s): %s" % (rc, out[-800:]))
    if line:
        ev, ov, cl, nd = (int(v) for v in line.split())
        ctx.evaluations += ev
        ctx.count("shared evaluations (%s)" % name, ev)
        ctx.count("of them while another thread queried the same distribution (%s)" % name, ov)
        ctx.count("clones made across threads (%s)" % name, cl)
        ctx.count("distributions shared (%s)" % name, nd)
    for i, t, want, got, how in wrong:
        fam, p, op, a = reqs[int(i)]
        f = lambda w: float(np.uint64(int(w)).view(np.float64)) if op not in ("modes", "params", "sample", "sample_script") else "digest %016x" % int(w)
        ctx.violate("thread %s on %s got %s" % (t, how, f(got)), request=dict(family=fam, params=list(p)[:64], op=op, arg=a, arg_hex=float(a).hex(), params_hex=[float(v).hex() for v in p[:64]]),
                    expected=f(want), profile="release, " + name)


# ------------------------------------------------------------------ C24
def hostile_batch(rng, per_family, invalid=True, n=3):
    """(requests, how many with invalid parameters)"""
    reqs, bad = [], 0
    for fam in CONT + DISC:
        for k in range(per_family):
            if k % 3 == 0:
                fixed = gen.FIXED[fam]
                p = tuple(float(v) for v in fixed[rng.integers(0, len(fixed))])
            else:
                p = gen.random_params(fam, rng) if k % 6 == 1 else gen.steered_params(fam, rng) if k % 6 == 4 else wide_params(fam, rng)
            qs = queries(fam, p, rng, n)
            if invalid and k % 2:
                # what a release build lets through
                inv = invalid_params(fam, p, rng)
                if fam in ("beta", "gamma"):  # special functions recurse on hugely negative shapes: an abort, not an error
                    inv = [v for v in inv if not min(v[1][:2]) < -10]
                p = tuple(float(v) for v in inv[rng.integers(0, len(inv))][1])
                if fam == "categorical" and not p and rng.random() < .5:
                    continue
                bad += 1
            for op, args in qs:
                args = np.asarray(args, dtype=float)
                args = rng.choice(args, min(len(args), 2 * n), replace=False)
                # The incomplete beta function never returns when asked nonsense; that is not a memory error.
                endless = fam in ("beta", "pert", "gamma") or fam.startswith("binomial")
                if endless and invalid and k % 2 and op in ("cdf", "inverse", "median", "entropy", "sample", "sample_script"):
                    continue
                if invalid and rng.random() < .5 and (not endless or (op == "pdf" and fam.startswith("binomial"))):
                    if op == "inverse":
                        args = np.concatenate([args, [-1.0, 1.5, -5e-324, NAN, INF, 1e300]])
                    if op == "pdf":
                        args = np.concatenate([args, [1e3, 1e6, 1.8e19]] if fam in DISC else [args, [NAN]])
                    if op == "cdf":
                        args = np.concatenate([args, [NAN]])
                if endless and op == "pdf" and invalid:
                    args = np.concatenate([args, [NAN]])
                reqs += [(fam, p, op, float(a)) for a in args]
    # Data delivered by honest and by lying iterators.
    for k in range(max(per_family, 24)):
        v = rng.normal(0, 1, int(rng.choice([0, 1, 2, 3, 5, 8, 17, 40])))
        if invalid and len(v) and k % 4 == 3:
            v[rng.integers(0, len(v))] = rng.choice([NAN, INF, -INF, 1e308])
        p = (float(k % 12),) + tuple(float(x) for x in v)
        reqs += [("gaussian_from_shape", p, "params", 0.0), ("gaussian_from_shape", p, "sample", 1.0)]
    return reqs, bad


def c24(ctx):
    rng = ctx.rng
    # 1. AddressSanitizer, release build, invalid parameters included
    exe, out = vlib.build_variant("asan")
    if exe is None:
        raise HarnessError("AddressSanitizer build failed: " + "\n".join(l for l in out.split("\n") if l.startswith("error"))[:1500])
    reqs, bad = hostile_batch(rng, ctx.scale(600, 3000))
    runs = [("AddressSanitizer", exe, reqs, {}), ("overflow checks and debug assertions", vlib.build("checked"), reqs, {}),
            ("allocation balance", vlib.build("release"), [r for r in reqs], dict(extra_opts=["--leak"]))]
    outcomes = {}
    for name, exe, rs, opts in runs:
        t = time.time()
        b = fill(rs)
        R = b.run(exe=exe, cpu=4.0, max_hangs=24, environ=dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1"), **opts)
        outcomes[name] = {STATUS[s]: int((R.status == s).sum()) for s in np.unique(R.status)}
        ctx.count("requests under " + name, int((R.status != NOT_RUN).sum()))
        ctx.evaluations += int((R.status != NOT_RUN).sum())
        ctx.ndistinct += int((R.status == OK).sum())
        for i in np.where((R.status == CRASH) | (R.status == LEAK))[0]:
            m = R.msgs.get(i, "")
            k = m.find("ERROR: AddressSanitizer")
            ctx.violate("%s under %s: %s" % ("memory is not given back: %g bytes" % R.val[i] if R.status[i] == LEAK else "the process died", name, m[k if k > 0 else 0:][:900]),
                        request=R.describe(i), profile=name)
        if os.environ.get("VMON_MARGINS"):
            print(name, outcomes[name], "%.1f s" % (time.time() - t))
            for i in np.where(R.status == HANG)[0][:24]:
                print("  hang", R.describe(i))
        for i in np.where(R.status == OK)[0][:2]:
            ctx.sample(under=name, **R.describe(i))
    # 2. the Miri interpreter
    miri(ctx, rng, outcomes)
    return dict(rule="random valid, extreme and invalid parameters (as a release build lets them through), every operation, arguments including NaN and infinities, ordinary and hostile sources; "
                     "non-trivial: a request that returned a value under a sanitizer", assumptions=["a panic is not a memory error", "Miri sees a smaller workload than AddressSanitizer"],
                extra=dict(outcomes=outcomes))


def miri(ctx, rng, outcomes):
    budget = ctx.scale(70, 420)
    reqs, bad = hostile_batch(rng, ctx.scale(24, 150), True, 2)
    native = fill(reqs).run("release", cpu=.5, max_hangs=64)
    for i in np.where(native.status == CRASH)[0][:3]:
        ctx.violate("the process died: %s" % native.msgs.get(i, "")[:500], request=native.describe(i), profile="release")
    reqs = [r for r, s in zip(reqs, native.status) if s in (OK, PANIC, CTOR_PANIC)]
    # Long sums take the interpreter too long.
    reqs = [r for r in reqs if not (r[0].startswith("binomial") and r[1][0] > 3000 and r[2] in ("entropy", "median"))]
    reqs = [reqs[i] for i in rng.permutation(len(reqs))]
    if not reqs:
        ctx.inconclusive.append("nothing to interpret")
        return
    d = tempfile.mkdtemp(prefix="vmon-", dir=vlib.scratch())
    try:
        b = fill(reqs)
        np.concatenate(b.blocks).tofile(d + "/req.bin")
        np.concatenate(b.pool).astype("<f8").tofile(d + "/pool.bin")
        e = vlib.env()
        e.update(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation")
        e["XDG_CACHE_HOME"] = os.path.join(vlib.TARGET, "cache")
        # libm uses inline assembly on x86-64, which Miri does not interpret; it has none for this target.
        base = ["cargo", "miri", "run", "--target", "riscv64gc-unknown-linux-gnu", "--offline", "--release", "--manifest-path", os.path.join(vlib.VERIF, "harness", "Cargo.toml"), "--target-dir", os.path.join(vlib.TARGET, "miri"),
                "--bin", "vmon", "--"]
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", os.path.join(vlib.VERIF, "harness", "Cargo.toml"), "--target-dir", os.path.join(vlib.TARGET, "miri"),
                        "-p", "probability", "-p", "vmon"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        one = lambda k, secs: base + ["plain", d + "/req.bin", d + "/pool.bin", str(k), "8", str(secs)]
        # the first one builds everything
        r = subprocess.run(base + ["plain", d + "/req.bin", d + "/pool.bin", "0", str(max(1, len(reqs))), "5"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
        text = r.stdout.decode("utf-8", "replace")
        if r.returncode != 0 and "Undefined Behavior" not in text:
            ctx.inconclusive.append("Miri does not run: " + text[-600:])
            return
        t = time.time()
        ps = [(k, subprocess.Popen(one(k, budget), env=e, stdout=open(d + "/out%d" % k, "w"), stderr=open(d + "/err%d" % k, "w"))) for k in range(8)]
        total = 0
        for k, p in ps:
            try:
                p.wait(timeout=max(1, budget + 60 - (time.time() - t)))
            except subprocess.TimeoutExpired:
                subprocess.run(["pkill", "-KILL", "-P", str(p.pid)])
                p.kill()
                p.wait()
            err = open(d + "/err%d" % k).read()
            at = re.findall(r"^at (\d+)$", err, re.M)
            total += len(at)
            if "Undefined Behavior" in err or "unsupported operation" in err or "memory leaked" in err:
                j = err.find("error: ")
                what = err[j:j + 1200]
                if "unsupported operation" in what:
                    ctx.inconclusive.append("Miri: " + what[:300])
                    continue
                fam, pp, op, a = reqs[int(at[-1])]
                ctx.violate("Miri: " + what, request=dict(family=fam, params=list(pp)[:64], op=op, arg=a, params_hex=[float(v).hex() for v in pp[:64]], arg_hex=float(a).hex()), profile="miri")
            elif p.returncode not in (0, -9):
                ctx.inconclusive.append("Miri ended with %s: %s" % (p.returncode, err[-300:]))
        outcomes["Miri"] = dict(interpreted=total)
        ctx.count("requests under Miri", total)
        ctx.evaluations += total
    finally:
        subprocess.run(["pkill", "-KILL", "-f", d])
        shutil.rmtree(d, ignore_errors=True)
