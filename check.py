#!/usr/bin/env python3
"""Runs one check:  check.py C07 [--tier quick|thorough] [--replay FILE] [--seed N]

Rebuilds the repository's sources and the monitor programs from the current
working tree, runs the monitored workload, and gives a verdict:
exit 0 (held on everything explored), exit 1 with a VIOLATION line, any other
exit code when no verdict could be reached.
"""
import argparse, fcntl, glob, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks_config import CHECKS, CONFIGS  # noqa: E402

NW = min(8, os.cpu_count() or 8)
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Inconclusive(Exception):
    pass


# ----------------------------------------------------------------- build ---
def repo_sources():
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    src += sorted(glob.glob(REPO + "/qpsolver/src/*.cpp"))
    return src


def gen_ninja(cfg):
    c = CONFIGS[cfg]
    bd = os.path.join(BUILD, cfg)
    os.makedirs(bd, exist_ok=True)
    cxx = c.get("cxx", "clang++")
    common = ("-std=c++14 -w -I{v}/stub -I{v}/lib -I{r} -I{r}/qpsolver -isystem /usr/include/eigen3 {f}"
              .format(v=VERIF, r=REPO, f=c["flags"]))
    out = ["builddir = .", "ninja_required_version = 1.5",
           "rule cxx", "  command = %s %s $pch -MMD -MF $out.d -c $in -o $out" % (cxx, common),
           "  depfile = $out.d", "  deps = gcc",
           "rule pch", "  command = %s %s -x c++-header -MMD -MF $out.d $in -o $out" % (cxx, common),
           "  depfile = $out.d", "  deps = gcc",
           "rule cxxplain", "  command = clang++ -std=c++14 -O2 -g1 -w -fPIC -I%s/lib -MMD -MF $out.d -c $in -o $out" % VERIF,
           "  depfile = $out.d", "  deps = gcc",
           "rule ar", "  command = rm -f $out && ar rcs $out $in",
           "rule link", "  command = %s %s $in $libs -o $out -lpthread %s" % (cxx, c["flags"], c.get("ld", "")),
           ""]
    use_pch = cxx == "clang++" and not c.get("nopch")
    pch = ""
    pdep = ""
    if use_pch:
        out.append("build pch.pch: pch %s/lib/pch.h" % VERIF)
        pch = "-include-pch pch.pch"
        pdep = " | pch.pch"

    objs = {}
    for s in repo_sources():
        rel = os.path.relpath(s, REPO)
        o = "repo_" + rel.replace("/", "_")[:-4] + ".o"
        objs[os.path.basename(s)[:-4]] = o
        out.append("build %s: cxx %s%s\n  pch = %s" % (o, s, pdep, pch))
    out.append("build vqp.o: cxxplain %s/lib/vqp.cpp" % VERIF)
    out.append("build libmw.a: ar %s" % " ".join(sorted(objs.values())))
    for h in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        n = os.path.basename(h)[:-4]
        out.append("build h_%s.o: cxx %s%s\n  pch = %s" % (n, h, pdep, pch))
        first = open(h).read(4000)
        m = re.search(r"needs:\s*(.*)", first)
        if m and m.group(1).strip() != "all":
            need = [objs[x] for x in m.group(1).split() if x in objs]
            out.append("build %s: link h_%s.o %s vqp.o" % (n, n, " ".join(need)))
        else:
            out.append("build %s: link h_%s.o libmw.a vqp.o" % (n, n))
        out.append("build %s_full: link h_%s.o libmw.a vqp.o" % (n, n))
    out.append("build lib: phony libmw.a vqp.o")
    txt = "\n".join(out) + "\n"
    p = os.path.join(bd, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return bd


def build(targets):
    """targets: list of (config, harness). Returns {(config, harness): path}."""
    res = {}
    bycfg = {}
    for c, h in targets:
        bycfg.setdefault(c, []).append(h)
    os.makedirs(BUILD, exist_ok=True)
    for cfg, hs in bycfg.items():
        lock = open(os.path.join(BUILD, cfg + ".lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        bd = gen_ninja(cfg)
        r = subprocess.run(["ninja", "-C", bd, "-k", "0", "-j", str(NW)] + hs, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        names = {h: h for h in hs}
        if r.returncode != 0:
            r2 = subprocess.run(["ninja", "-C", bd, "-j", str(NW)] + [h + "_full" for h in hs], stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True)
            if r2.returncode != 0:
                print(r.stdout[-4000:])
                print(r2.stdout[-4000:])
                raise Inconclusive("build failed for %s/%s" % (cfg, hs))
            names = {h: h + "_full" for h in hs}
        for h in hs:
            res[(cfg, h)] = os.path.join(bd, names[h])
        log("built", cfg, hs)
    return res


# ------------------------------------------------------------------- run ---
def crash_key(text, rc):
    m = re.search(r"([\w./-]+\.(?:cpp|h|hxx|hpp)):\d+: .*Assertion [`'](.*?)' failed", text)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", " ", m.group(2))[:80])
    m = re.search(r"Assertion [`'](.*?)' failed", text)
    if m:
        return "assert:%s" % re.sub(r"\s+", " ", m.group(1))[:80]
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(?: ([^\s]+?)(?::\d+)*(?: in (\S+))?)?", text)
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2), os.path.basename(m.group(3) or ""))
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid \w+|Uninit|Syscall param|Mismatched|Invalid free)[^\n]*(?:\n==\d+==[^\n]*?(?:at|by) 0x\w+: ([^\n(]+))?", text)
    if m:
        return "valgrind:%s:%s" % (m.group(1).replace(" ", "_"), re.sub(r"\W+", "_", m.group(2) or "")[:60])
    m = re.search(r"([^\s/]+\.(?:cpp|h|hxx|hpp)):\d+:\d+: runtime error: ([^\n]{0,60})", text)
    if m:
        return "ubsan:%s:%s" % (m.group(1), re.sub(r"-?\d+(\.\d+)?", "N", m.group(2)))
    return "crash:rc%d" % rc


def limiter(job):
    """A case that allocates without end fails alone. (The sanitizers reserve terabytes of address space; they get
    their limit from ASAN_OPTIONS.)"""
    if job.get("config", "fast") in ("asan", "tsan"):
        return None
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run_cmd(cmd, env=None, timeout=300, pre=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         env=e, start_new_session=True, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out or "", True


class Worker:
    def __init__(self, exe, wid, seed, start, step, count, job, tmp):
        self.exe, self.wid, self.seed, self.start, self.step, self.count, self.job, self.tmp = \
            exe, wid, seed, start, step, count, job, tmp
        self.part = 0
        self.launch(start, count)

    def launch(self, start, count):
        self.cur = "%s/cur.%d" % (self.tmp, self.wid)
        self.out = "%s/out.%d.%d" % (self.tmp, self.wid, self.part)
        self.logf = "%s/log.%d.%d" % (self.tmp, self.wid, self.part)
        self.part += 1
        self.cs, self.cc = start, count
        cmd = job_cmd(self.job, self.exe) + ["--seed", str(self.seed), "--from", str(start), "--step", str(self.step), "--count",
               str(count), "--out", self.out, "--cur", self.cur] + self.job.get("args", [])
        e = dict(os.environ)
        e.update(self.job.get("env", {}))
        if os.path.exists(self.cur):
            os.unlink(self.cur)
        self.lf = open(self.logf, "w")
        self.p = subprocess.Popen(cmd, stdout=self.lf, stderr=subprocess.STDOUT, env=e, start_new_session=True,
                                  preexec_fn=limiter(self.job))
        self.last = None
        self.lastt = time.time()

    def curcase(self):
        try:
            return int(open(self.cur).read().strip() or -1)
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def job_cmd(job, exe):
    return job.get("wrap", []) + [exe]


def run_job(prop, job, exe, seed, base, count, tmp, deadline, agg, known):
    """Run cases base..base+count-1 over NW workers. Adds to agg."""
    os.makedirs(tmp, exist_ok=True)
    nw = min(job.get("workers", NW), NW)
    hang = job.get("hang", 60 if job.get("config", "fast") == "fast" else 90)
    ws = []
    for w in range(nw):
        n = (count - w + nw - 1) // nw
        if n > 0:
            ws.append(Worker(exe, w, seed, base + w, nw, n, job, tmp))
    live = list(ws)
    while live:
        time.sleep(0.02)
        now = time.time()
        for w in list(live):
            rc = w.p.poll()
            if rc is None:
                cc = w.curcase()
                if cc != w.last:
                    w.last, w.lastt = cc, now
                timeout = now - w.lastt > hang
                if now > deadline and not timeout:
                    for x in live:
                        x.kill()
                    raise Inconclusive("deadline reached while running %s" % job["harness"])
                if not timeout:
                    continue
                w.kill()
                cc = w.curcase()
                log("worker stuck at case", cc, "- running the case alone")
                rc2, out2, to2 = run_cmd(job_cmd(job, exe) + ["--seed", str(seed), "--case", str(cc)] + job.get("args", []),
                                         job.get("env"), timeout=2*hang, pre=limiter(job))
                if to2:
                    agg["fails"].append({"case": cc, "key": "hang", "msg": "case does not terminate (%d s alone)" % (2*hang),
                                         "desc": "", "job": job["name"], "seed": seed})
                    # the others may well be stuck too: this is the verdict
                    for x in live:
                        x.kill()
                    agg["run"] += 1
                    return
                elif rc2 not in (0, 10):
                    agg["fails"].append({"case": cc, "key": crash_key(out2, rc2), "msg": out2[-3000:], "desc": "", "job": job["name"], "seed": seed})
                else:
                    raise Inconclusive("case %s was slow, then finished alone" % cc)
                resume(w, cc, live, agg)
                continue
            w.lf.close()
            if rc in (0, 10):
                try:
                    d = json.load(open(w.out))
                except Exception as e:
                    raise Inconclusive("bad worker output: %s" % e)
                merge(agg, d, job, seed)
                live.remove(w)
                continue
            text = open(w.logf, errors="replace").read()
            cc = w.curcase()
            if cc is None and job.get("startup") and rc not in (3, 127, -9):
                agg["fails"].append({"case": 0, "key": "startup:" + crash_key(text, rc), "msg": text[-6000:], "desc": "", "job": job["name"], "seed": seed})
                agg["run"] += 1
                live.remove(w)
                continue
            if cc is None:
                print(text[-3000:])
                raise Inconclusive("worker died before its first case (rc %s)" % rc)
            if rc in (3, 127) or (rc == -9):
                print(text[-3000:])
                raise Inconclusive("worker ended with rc %s at case %s" % (rc, cc))
            key = crash_key(text, rc)
            agg["fails"].append({"case": cc, "key": key, "msg": text[-6000:], "desc": "", "job": job["name"], "seed": seed})
            resume(w, cc, live, agg)


def resume(w, cc, live, agg):
    """Go on after the case that killed the worker."""
    done = (cc - w.cs) // w.step + 1
    agg["run"] += done
    agg["crash"] += 1
    left = w.cc - done
    if left <= 0 or len(agg["fails"]) > 12:
        live.remove(w)
        return
    w.launch(cc + w.step, left)


def merge(agg, d, job, seed):
    agg["run"] += d["run"]
    agg["skipped"] += d["skipped"]
    for f in ([] if job.get("only_crash") else d["fails"]):
        f["job"] = job["name"]
        f["seed"] = seed
        agg["fails"].append(f)
    for s in d["samples"]:
        if len(agg["samples"]) < 4:
            agg["samples"].append("%s: %s" % (job["name"], s))
    for k, v in d["counters"].items():
        k = job["name"] + "." + k
        if ".max_" in k:
            agg["counters"][k] = max(agg["counters"].get(k, 0), v)
        else:
            agg["counters"][k] = agg["counters"].get(k, 0) + v
    agg["sigs"].update((job["name"], x) for x in d["sigs"])
    agg["states"].update((job["name"], x) for x in d["states"])


# --------------------------------------------------------- known findings ---
def load_known(prop):
    """Lines 'finding: property=Cxx key=<regex> :: <what fails>' of KNOWN_FINDINGS.txt."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    if a.prop not in CHECKS:
        print("unknown check", a.prop)
        return 2
    try:
        return replay(a) if a.replay else check(a)
    except Inconclusive as e:
        print("INCONCLUSIVE:", e)
        return 2


def replay(a):
    ck = CHECKS[a.prop]
    d = json.load(open(a.replay))
    job = ([j for j in ck["jobs"] if j["name"] == d["job"]] + [{"custom": 1}])[0]
    if "custom" in job:
        print("replay by re-running the check: seed", d["seed"])
        a.seed, a.tier, a.replay = d["seed"], d["tier"], None
        return check(a)
    exe = build([(job["config"], job["harness"])])[(job["config"], job["harness"])]
    rc, out, to = run_cmd(job_cmd(job, exe) + ["--seed", str(d["seed"]), "--case", str(d["case"]), "--verbose"] + job.get("args", []),
                          job.get("env"), timeout=600)
    print(out)
    if rc == 0:
        print("replay: the case passes now")
        return 0
    print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
    return 1


def check(a):
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    ck = CHECKS[prop]
    known = load_known(prop)
    agg = {"run": 0, "skipped": 0, "crash": 0, "fails": [], "samples": [], "counters": {}, "sigs": set(), "states": set(), "extra": {}}
    tmp = os.path.join(BUILD, "run", "%s.%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    jobs = [j for j in ck["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    try:
        exes = build([(j["config"], j["harness"]) for j in jobs if "harness" in j])
        budget = a.budget or ck.get("thorough_s", 600)
        start = time.time()
        deadline = time.time() + (660 if tier == "quick" else budget + 1200)
        for j in jobs:
            if "custom" in j:
                import checks_custom
                getattr(checks_custom, j["custom"])(sys.modules[__name__], prop, j, tier, a.seed, tmp, deadline, agg)
                continue
            run_job(prop, j, exes[(j["config"], j["harness"])], a.seed, 0, j["quick"], tmp + "/" + j["name"], deadline, agg, known)
            log("job", j["name"], "done; cases so far", agg["run"], "fails", len(agg["fails"]))
            if unknown(agg, known):
                break
        if tier == "thorough":
            # go on with further case indices, in rounds, until the time budget is used up
            rnd = {j["name"]: j["quick"] for j in jobs if "harness" in j}
            while time.time() - start < budget and not unknown(agg, known):
                for j in jobs:
                    if "harness" not in j:
                        continue
                    n = j["quick"]*2
                    run_job(prop, j, exes[(j["config"], j["harness"])], a.seed, rnd[j["name"]], n, tmp + "/" + j["name"], deadline, agg, known)
                    rnd[j["name"]] += n
                    if time.time() - start > budget or unknown(agg, known):
                        break
                log("round done; cases", agg["run"])
    except Inconclusive as e:
        # a violation seen before that stands
        if not unknown(agg, known):
            raise
        log("stopped early:", e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return verdict(prop, tier, a.seed, ck, agg, known)


def unknown(agg, known):
    return [f for f in agg["fails"] if not any(k.search(f["key"]) for k, _ in known)]


def verdict(prop, tier, seed, ck, agg, known):
    bad = unknown(agg, known)
    nt = len(agg["sigs"])
    cov = {"evaluations": agg["run"] - agg["skipped"], "distinct_nontrivial": nt, "rule": ck["rule"],
           "samples": agg["samples"] or ["(none)"], "skipped_by_generator": agg["skipped"],
           "distinct_states_observed": len(agg["states"]), "counters": dict(sorted(agg["counters"].items()))}
    cov.update(agg["extra"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for f in agg["fails"]:
        for k, what in known:
            if k.search(f["key"]) and what not in seen:
                seen.add(what)
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        f = bad[0]
        path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, f["seed"], f["case"]))
        with open(path, "w") as o:
            json.dump({"property": prop, "tier": tier, "job": f["job"], "seed": f["seed"], "case": f["case"], "key": f["key"],
                       "msg": f["msg"], "desc": f["desc"], "all_keys": sorted(set(x["key"] for x in bad))}, o, indent=1)
        print("%d violating cases, keys: %s" % (len(bad), sorted(set(x["key"] for x in bad))[:8]))
        print("first: [%s] %s" % (f["key"], f["msg"][-1500:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    mn = ck.get("min_nontrivial", 20)
    if nt < mn:
        print("INCONCLUSIVE: only %d distinct non-trivial cases (need %d)" % (nt, mn))
        return 2
    for name, need in ck.get("need_counters", {}).items():
        if agg["counters"].get(name, 0) < need:
            print("INCONCLUSIVE: counter %s = %d, need %d" % (name, agg["counters"].get(name, 0), need))
            return 2
    print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d states=%d wall=%.1fs" %
          (prop, tier, agg["run"], nt, len(agg["states"]), time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
