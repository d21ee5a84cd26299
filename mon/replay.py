"""Repeat a recorded observation against the current tree."""
import json
from vlib import Batch, OK, STATUS, SampleJob, run_samples, FAMILIES, OPS


def main(path):
    v = json.load(open(path))
    print("recorded: %s %s" % (v["property"], v["what"]))
    print(json.dumps({k: v[k] for k in v if k not in ("what", "property")}, indent=1))
    r = v.get("request")
    if r and r.get("op") in OPS and r.get("family") in FAMILIES and len(r["params"]) == len(r["params_hex"]):
        b = Batch()
        b.add(r["family"], [float.fromhex(x) for x in r["params_hex"]], r["op"], [float.fromhex(r["arg_hex"])])
        profile = v.get("profile") if v.get("profile") in ("release", "checked") else "release"
        R = b.run(profile, cpu=60.0)
        print("now: %s" % json.dumps(R.describe(0)))
        same = R.status[0] != OK or r.get("observed") is None or \
            [float(x).hex() for x in R.list(0)[:16]] == [float(x).hex() for x in r["observed"]]
        print("the recorded observation %s" % ("is REPRODUCED" if same else "is not reproduced"))
        return 1 if same else 0
    job = v.get("job")
    if job and "source_id" in job:
        j = SampleJob(job["family"], [float.fromhex(x) for x in job["params_hex"]], job["n"],
                      job.get("edges", []), job.get("coarse"), job.get("groups", 1), job["source_id"], job["seed"])
        hung = run_samples([j])
        print("hung" if hung is not None else "bins %s nan %d min %r max %r" % (j.bins.tolist(), j.nan, j.min, j.max))
        return 0
    print("nothing to re-run beyond the record above; run: VERIF_SEED=%s python3-vt check.py %s %s" %
          (v["seed"], v["property"], v["tier"]))
    return 0
