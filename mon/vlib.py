"""Shared plumbing: build the executor from /repo's working tree, run requests
on the real library, and read back what was observed."""
import json, os, shutil, struct, subprocess, sys, tempfile, time
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")

FAMILIES = [
    "bernoulli", "bernoulli_f", "beta", "binomial", "binomial_f", "categorical", "cauchy",
    "exponential", "gamma", "gaussian", "laplace", "logistic", "lognormal", "pert", "triangular",
    "uniform", "gaussian_default", "logistic_default", "lognormal_default", "uniform_default",
    "gaussian_from_iter", "gaussian_from_shape",
]
OPS = ["cdf", "pdf", "inverse", "mean", "variance", "deviation", "skewness", "kurtosis",
       "entropy", "median", "modes", "params", "sample", "sample_script", "new", "sample_word"]
FI = {f: i for i, f in enumerate(FAMILIES)}
OI = {o: i for i, o in enumerate(OPS)}
STATUS = ["ok", "panic", "hang", "unsupported", "ctor_panic", "not_run", "crash", "leak"]
OK, PANIC, HANG, UNSUPPORTED, CTOR_PANIC, NOT_RUN, CRASH, LEAK = range(8)

REQ = np.dtype([("fam", "<u4"), ("op", "<u4"), ("off", "<u4"), ("len", "<u4"), ("arg", "<f8")])
RES = np.dtype([("status", "<u4"), ("n", "<u4"), ("off", "<u8"), ("val", "<f8")])


class HarnessError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin"
    return e


_built = {}


def build(profile, name="vmon"):
    """Build a binary of the harness against /repo's current tree; always recompiles the library."""
    if (profile, name) in _built:
        return _built[profile, name]
    manifest = os.path.join(VERIF, "harness", "Cargo.toml")
    base = ["--manifest-path", manifest, "--offline", "--target-dir", TARGET, "--profile", profile]
    if not any(k[0] == profile for k in _built if isinstance(k, tuple)):
        subprocess.run(["cargo", "clean", "-p", "probability", "-p", "vmon", *base], env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--bin", name, *base], env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("build failed:\n" + "\n".join(l for l in r.stdout.split("\n") if l.startswith("error") or "-->" in l)[:2500])
    _built[profile, name] = os.path.join(TARGET, "release" if profile == "release" else profile, name)
    return _built[profile, name]


def build_variant(kind):
    """Instrumented builds: "asan" (executor), "share" and "tsan" (shared distributions).
    Returns (path or None, compiler output)."""
    if kind in _built:
        return _built[kind]
    crate = "harness" if kind == "asan" else "harness/share"
    name = "vmon" if kind == "asan" else "vshare"
    target = os.path.join(TARGET, kind)
    e = env()
    args = ["--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), "--offline", "--release", "--target-dir", target]
    triple = "x86_64-unknown-linux-gnu"
    cargo = ["cargo"]
    if kind in ("asan", "tsan"):
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["RUSTFLAGS"] = "-Zsanitizer=" + dict(asan="address", tsan="thread")[kind]
        args += ["--target", triple]
    subprocess.run(cargo + ["clean", "-p", "probability", "-p", name, *args], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if kind == "tsan":
        args += ["-Zbuild-std"]
    r = subprocess.run(cargo + ["build", "--bin", name, *args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    path = os.path.join(target, triple if kind in ("asan", "tsan") else "", "release", name)
    _built[kind] = (path if r.returncode == 0 else None, r.stdout)
    return _built[kind]


class Batch:
    """A batch of requests to the library."""

    def __init__(self):
        self.pool = []
        self.npool = 0
        self.cache = {}
        self.blocks = []
        self.n = 0

    def params(self, p):
        key = tuple(p)
        if key not in self.cache:
            self.cache[key] = (self.npool, len(key))
            self.pool.append(np.asarray(key, dtype="<f8"))
            self.npool += len(key)
        return self.cache[key]

    def add(self, fam, p, op, args=(0.0,)):
        off, ln = self.params(p)
        args = np.atleast_1d(np.asarray(args, dtype="<f8"))
        b = np.zeros(len(args), dtype=REQ)
        b["fam"] = FI[fam]
        b["op"] = OI[op]
        b["off"] = off
        b["len"] = ln
        b["arg"] = args
        self.blocks.append(b)
        s = slice(self.n, self.n + len(args))
        self.n += len(args)
        return s

    def run(self, profile="release", cpu=10.0, fresh=False, threads=8, max_hangs=24, timeout=800,
            order=None, exe=None, extra_opts=(), environ=None):
        exe = exe or build(profile)
        req = np.concatenate(self.blocks) if self.blocks else np.zeros(0, dtype=REQ)
        pool = (np.concatenate(self.pool) if self.pool else np.zeros(0)).astype("<f8")
        opts = ["--cpu", str(cpu), "--threads", str(threads), "--max-hangs", str(max_hangs)]
        if fresh:
            opts.append("--fresh")
        opts += list(extra_opts)
        n = len(req)
        active = np.arange(n) if order is None else np.asarray(order)
        res = np.zeros(n, dtype=RES)
        res["status"] = NOT_RUN
        extra, msgs = np.zeros(0), {}
        for _ in range(12):
            rc, out, r, e, m, inflight = _execute(exe, req[active], pool, opts, timeout, environ)
            if rc == 0:
                r = r.copy()
                r["off"] += len(extra)
                res[active] = r
                extra = np.concatenate([extra, e])
                for k, v in m.items():
                    msgs[int(active[k])] = v
                break
            # The process died. Find which of the requests in flight kills it on its own.
            culprits = []
            for k in inflight:
                rc1, out1, _, _, _, _ = _execute(exe, req[active[k:k + 1]], pool, opts, timeout, environ)
                if rc1 != 0:
                    culprits.append(k)
                    res["status"][active[k]] = CRASH
                    msgs[int(active[k])] = "process died (%s): %s" % (rc1, out1[-600:])
            if not culprits:
                raise HarnessError("executor failed (%s): %s" % (rc, out[-2000:]))
            active = np.delete(active, culprits)
        return Results(req, pool, res, extra, msgs)


def _execute(exe, req, pool, opts, timeout, environ=None):
    d = tempfile.mkdtemp(prefix="vmon-", dir=scratch())
    try:
        req.tofile(d + "/req.bin")
        pool.tofile(d + "/pool.bin")
        r = subprocess.run([exe, "exec", d + "/req.bin", d + "/pool.bin", d] + opts,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(environ or {})))
        out = r.stdout.decode("utf-8", "replace")
        if r.returncode != 0:
            try:
                slots = np.fromfile(d + "/progress.bin", dtype="<u8")
            except OSError:
                slots = np.zeros(0, dtype="<u8")
            inflight = sorted(set(int(x) - 1 for x in slots if x))
            return r.returncode, out, None, None, None, inflight
        res = np.fromfile(d + "/res.bin", dtype=RES)
        extra = np.fromfile(d + "/extra.bin", dtype="<f8")
        msgs = {}
        for line in open(d + "/messages.txt"):
            k, v = line.rstrip("\n").split("\t", 1)
            msgs[int(k)] = v
        return 0, out, res, extra, msgs, []
    finally:
        shutil.rmtree(d, ignore_errors=True)


class SampleJob:
    def __init__(self, fam, params, n, edges, coarse=None, groups=1, src=0, seed=0, tag=None):
        self.fam, self.params, self.n, self.src, self.seed = fam, list(params), int(n), src, int(seed)
        self.edges = np.asarray(edges, dtype="<f8")
        self.coarse = np.zeros(len(self.edges) + 1, dtype="<u8") if coarse is None else np.asarray(coarse, dtype="<u8")
        self.groups = groups
        self.tag = tag
        self.bins = self.pairs = None

    def words(self):
        h = np.array([FI[self.fam], self.src, self.seed & (2**64 - 1), self.n, len(self.params),
                      len(self.edges), self.groups], dtype="<u8")
        return b"".join([h.tobytes(), np.asarray(self.params, dtype="<f8").tobytes(),
                         self.edges.tobytes(), self.coarse.tobytes()])

    def describe(self):
        return dict(family=self.fam, params=[float(x) for x in self.params][:64],
                    params_hex=[float(x).hex() for x in self.params][:64], n=self.n,
                    source=["xoshiro256**", "library default"][self.src], seed=self.seed)


def run_samples(jobs, profile="release", cpu=60.0, threads=8, timeout=850):
    """Draw; returns None, or the index of the job that hung."""
    exe = build(profile)
    d = tempfile.mkdtemp(prefix="vmon-", dir=scratch())
    try:
        with open(d + "/jobs.bin", "wb") as f:
            for j in jobs:
                f.write(j.words())
        r = subprocess.run([exe, "sample", d + "/jobs.bin", d + "/out.txt", "--cpu", str(cpu),
                            "--threads", str(threads)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        if r.returncode != 0:
            raise HarnessError("sampler failed (%s): %s" % (r.returncode, r.stdout[-2000:]))
        lines = open(d + "/out.txt").read().split("\n")
        if lines[0].startswith("hang "):
            return int(lines[0].split()[1])
        for k, j in enumerate(jobs):
            h = lines[4 * k].split()
            assert int(h[1]) == k
            j.drawn, j.nan = int(h[2]), int(h[3])
            j.min, j.max = float(h[4].replace("NaN", "nan")), float(h[5].replace("NaN", "nan"))
            j.bins = np.array(lines[4 * k + 1].split()[1:], dtype=np.int64)
            j.pairs = np.array(lines[4 * k + 2].split()[1:], dtype=np.int64).reshape(j.groups, j.groups)
            j.message = lines[4 * k + 3][8:]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Results:
    def __init__(self, req, pool, res, extra, msgs):
        self.req, self.pool, self.res, self.extra, self.msgs = req, pool, res, extra, msgs
        self.val = res["val"]
        self.status = res["status"]

    def list(self, i):
        r = self.res[i]
        if r["n"] == 1:
            return np.array([r["val"]])
        return self.extra[r["off"]:r["off"] + r["n"]]

    def par(self, i):
        r = self.req[i]
        return self.pool[r["off"]:r["off"] + r["len"]]

    def describe(self, i):
        r = self.req[i]
        p = [float(x) for x in self.par(i)]
        d = dict(family=FAMILIES[r["fam"]], params=p if len(p) <= 64 else p[:64] + ["..."],
                 params_hex=[float(x).hex() for x in p[:64]],
                 op=OPS[r["op"]], arg=float(r["arg"]), arg_hex=float(r["arg"]).hex(),
                 status=STATUS[self.status[i]])
        if self.status[i] == OK:
            d["observed"] = [float(x) for x in self.list(i)[:16]]
        if i in self.msgs:
            d["message"] = self.msgs[i]
        return d


def scratch():
    d = os.path.join(VERIF, "scratch")
    os.makedirs(d, exist_ok=True)
    return d
