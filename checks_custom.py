"""Jobs that need more than running one monitor program."""
import glob, os, time


def across_builds(ck, prop, job, tier, seed, tmp, deadline, agg):
    """The same calls in builds with assertions, without them, and with matrices initialised by NaN: digests of every answer are equal."""
    cfgs = job["configs"]
    exes = ck.build([(c, job["harness_name"]) for c in cfgs])
    start, base = time.time(), 0
    while True:
        seen = {}
        for k, cfg in enumerate(cfgs):
            d = os.path.join(tmp, "digest_%s_%d" % (cfg, base))
            j = {"harness": job["harness_name"], "name": job["harness_name"] + "_" + cfg, "config": cfg,
                 "env": {"VH_DIGEST": d, "VH_SALT": str(seed*1000 + k)}}
            ck.run_job(prop, j, exes[(cfg, job["harness_name"])], seed, base, job["count"], os.path.join(tmp, j["name"]), deadline, agg, [])
            for f in glob.glob(d + ".*"):
                for line in open(f):
                    w = line.split()
                    seen.setdefault(int(w[0]), {})[cfg] = w
                os.unlink(f)
            ck.log("job", j["name"], "done; cases so far", agg["run"], "fails", len(agg["fails"]))
        calls = 0
        for idx, by in sorted(seen.items()):
            if cfgs[0] not in by:
                continue
            want = by[cfgs[0]]
            for cfg in cfgs[1:]:
                if cfg not in by:
                    continue   # the case failed there, which is reported already
                got = by[cfg]
                calls += len(want) - 3
                if got != want:
                    n = [i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]][0]
                    agg["fails"].append({"case": idx, "key": "build:%s" % cfg, "seed": seed, "job": job["name"], "desc": " ".join(want[:3]),
                                         "msg": "object class %s, float %s: call %d answers differently in the build '%s' (%d calls) than in '%s' (%d calls)"
                                                % (want[1], want[2], n - 3, cfg, len(got) - 3, cfgs[0], len(want) - 3)})
        agg["counters"]["calls_compared_across_builds"] = agg["counters"].get("calls_compared_across_builds", 0) + calls
        base += job["count"]
        if tier != "thorough" or agg["fails"] or time.time() - start > job.get("thorough_s", 540):
            return
