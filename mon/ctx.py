"""Verdict discipline shared by all checks."""
import hashlib, json, os, sys, time
import numpy as np
import mpmath as mp
from vlib import (VERIF, STATUS, OK, PANIC, HANG, UNSUPPORTED, CTOR_PANIC, NOT_RUN, CRASH, Batch,
                  HarnessError)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path))["findings"]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = np.random.default_rng([seed, int(prop[1:])])
        self.violations = []
        self.nviol = 0
        self.known = {}
        self.findings = {f["id"]: f for f in load_known() if prop in f["properties"]}
        self.evaluations = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.counters = {}
        self.margins = {}
        self.inconclusive = []
        self.notes = []
        self.deep = tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.deep else quick

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + int(n)

    def margin(self, key, ratio):
        """Largest observed error as a fraction of what is tolerated."""
        ratio = float(ratio)
        if ratio == ratio:
            self.margins[key] = max(self.margins.get(key, 0.0), ratio)

    def sample(self, **kw):
        if len(self.samples) < 8:
            self.samples.append(kw)

    def elapsed(self):
        return time.time() - self.t0

    # -- verdicts
    def violate(self, what, **detail):
        self.nviol += 1
        if len(self.violations) >= 40:
            return
        rec = dict(property=self.prop, tier=self.tier, seed=self.seed, what=what, **detail)
        self.violations.append(rec)

    def finding(self, fid, what):
        """Attribute an observation to a listed finding; False if it is not listed."""
        if fid not in self.findings:
            return False
        k = self.known.setdefault(fid, dict(count=0, example=what))
        k["count"] += 1
        return True

    def settle(self, R, profile, exe=None):
        """Judge how the requests ended; returns the mask of those that returned.
        Panics and crashes on valid input are violations; a hang is one only
        after it has been confirmed alone with six times the CPU budget."""
        ok = R.status == OK
        self.evaluations += int(ok.sum())
        for i in np.where((R.status == PANIC) | (R.status == CTOR_PANIC) | (R.status == CRASH))[0][:200]:
            self.violate("%s on valid input: %s" % (STATUS[R.status[i]], R.msgs.get(i, "")[:300]),
                         request=R.describe(i), profile=profile)
        hung = np.where(R.status == HANG)[0]
        confirmed = 0
        for i in hung[:2]:
            d = R.describe(i)
            b = Batch()
            b.add(d["family"], list(R.par(i)), d["op"], [R.req[i]["arg"]])
            r = b.run(profile, cpu=60.0, exe=exe)
            if r.status[0] == HANG:
                confirmed += 1
                self.violate("no answer after 60 s of CPU time", request=d, profile=profile)
            else:
                self.inconclusive.append("slow: %s" % json.dumps(d))
        if len(hung) and not confirmed and len(hung) > 2:
            self.inconclusive.append("%d more slow requests" % (len(hung) - 2))
        n = int((R.status == NOT_RUN).sum())
        if n:
            self.inconclusive.append("%d requests not run" % n)
        return ok

    def judge(self, R, bad, what, expected=None, arbiter=None, known=None, profile="release", limit=60):
        """Turn suspicious observations into verdicts. `arbiter(i)` re-decides one
        with the high-precision oracle and returns None when it is fine after all,
        or a text; `known(i)` returns the id of a finding it would belong to."""
        idx = np.where(bad)[0]
        if len(idx) == 0:
            return
        # Spread the arbitration over the suspicious set.
        if len(idx) > limit:
            sel = idx[np.unique(np.linspace(0, len(idx) - 1, limit).astype(int))]
        else:
            sel = idx
        for i in sel:
            text = None
            if arbiter is not None:
                self.count("arbitrated")
                try:
                    text = arbiter(i)
                except Exception as e:  # the oracle gave up: no verdict
                    self.inconclusive.append("oracle: %s on %s" % (e, json.dumps(R.describe(i))))
                    continue
                if text is None:
                    self.count("cleared_by_high_precision_oracle")
                    continue
            f = known(i) if known else None
            if f and self.finding(f, R.describe(i)):
                continue
            self.violate(what + ("" if not text else ": " + text), request=R.describe(i),
                         expected=None if expected is None else _num(expected(i)), profile=profile)

    # -- output
    def finish(self, level, rule, assumptions, extra=None):
        wall = time.time() - self.t0
        cov = dict(evaluations=int(self.evaluations), distinct_nontrivial=int(self.ndistinct + len(self.distinct)),
                   rule=rule, samples=self.samples or ["none"], counters=self.counters,
                   worst_error_as_fraction_of_tolerance={k: float("%.3g" % v) for k, v in sorted(self.margins.items())},
                   inconclusive=self.inconclusive[:20], n_inconclusive=len(self.inconclusive),
                   known_findings={k: v for k, v in self.known.items()})
        if extra:
            cov.update(extra)
        out = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                   assumptions=assumptions, wall_s=round(wall, 2), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(out, f, indent=1, default=_num)
        os.replace(path + ".tmp", path)
        for k, v in self.known.items():
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" %
                  (self.prop, k, self.findings[k]["what"], v["count"]))
        shown = self.violations[:3]
        for v in shown:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            text = json.dumps(v, indent=1, default=_num)
            p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                f.write(text)
            print("  %s" % v["what"][:300])
            r = v.get("request")
            if r:
                print("    %s" % json.dumps(r, default=_num)[:600])
                print("    expected: %s" % json.dumps(v.get("expected"), default=_num))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s seed=%d: %s, %d evaluations, %d distinct, %d inconclusive, %.1f s" %
              (self.prop, self.tier, self.seed, "%d VIOLATIONS" % self.nviol if self.nviol else "held",
               self.evaluations, cov["distinct_nontrivial"], len(self.inconclusive), wall))
        if not self.nviol and self.evaluations == 0:
            raise HarnessError("nothing was observed")
        return 1 if self.nviol else 0


def _num(x):
    if isinstance(x, (np.floating, mp.mpf)):
        return float(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_num(v) for v in x]
    if isinstance(x, (float, int, str, bool)) or x is None:
        return x
    return str(x)
