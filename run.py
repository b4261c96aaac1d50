#!/usr/bin/env python3
"""Driver of all checks.

  run.py setup                      build everything once
  run.py check P01 [--tier quick]   one check: exit 0 held / 1 violated (VIOLATION line) / 2 no answer
  run.py replay FILE                run the recorded case of a violation again, verbosely
"""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import vbuild
import harnesses
from harnesses import CHECKS

STALL_S = {"quick": 120, "thorough": 240}
MAX_CRASHES = 4   # per worker
NPROC = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    known, path = {}, os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def env_for(spec):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:halt_on_error=1:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=1" + spec.get("asan", "")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C.UTF-8"
    env = spec.get("env", {})
    e.update(env() if callable(env) else env)
    return e


def crash_key(rc, err, suite):
    """a stable name of what killed the process; no line numbers, no addresses"""
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+)(?: (\S+) in (.*))?", err)
    if m:
        fn = re.sub(r"[(<].*", "", (m.group(3) or "").strip()) or "unknown"
        return f"asan:{m.group(1)}:{fn.split(' ')[-1]}".replace(" ", "_")
    m = re.search(r"([\w./+-]+):\d+:\d+: runtime error: (.*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+", "N", m.group(2))
        msg = re.sub(r"-?\d[\d.e+x]*", "N", msg)
        return f"ubsan:{os.path.basename(m.group(1))}:{msg[:60]}".replace(" ", "_")
    if "hard rss limit" in err or "requested allocation size" in err:
        return f"memory-exhaustion:{suite}"
    if rc is not None and rc < 0:
        return f"signal{-rc}:{suite}"
    return f"exit{rc}:{suite}"


class Worker:
    def __init__(self, spec, cmd, args, tmp, name, shard, nshards):
        self.spec, self.cmd, self.args = spec, cmd, args
        self.tmp, self.name, self.shard, self.nshards = tmp, name, shard, nshards
        self.out = os.path.join(tmp, name + ".jsonl")
        self.prog = os.path.join(tmp, name + ".prog")
        self.err = os.path.join(tmp, name + ".err")
        self.start = 0
        self.crashes = []
        self.done = False
        self.broken = None
        self.slow = 0
        self.launch()

    def launch(self):
        self.lastidx, self.lastt = None, time.time()
        open(self.prog, "wb").close()
        self.f = open(self.err, "wb")
        self.p = subprocess.Popen(self.cmd + self.args + ["--shard", str(self.shard), "--nshards", str(self.nshards), "--start", str(self.start),
                                  "--out", self.out, "--progress", self.prog],
                                  stdout=self.f, stderr=self.f, env=env_for(self.spec), cwd=self.tmp, start_new_session=True)

    def progress(self):
        try:
            b = open(self.prog, "rb").read()
            if len(b) < 24 + 64:
                return None
            idx, seed, done = struct.unpack("<QQQ", b[:24])
            suite = b[24:88].split(b"\0")[0].decode()
            desc = b[88:].split(b"\0")[0].decode("utf8", "replace")
            return idx, seed, done, suite, desc
        except OSError:
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def poll(self, stall):
        if self.done:
            return
        rc = self.p.poll()
        pr = self.progress()
        if rc is None:
            tick = (pr[0], pr[2]) if pr else None
            if tick != self.lastidx:
                self.lastidx, self.lastt = tick, time.time()
            elif time.time() - self.lastt > stall:
                self.kill()
                if pr is None:
                    self.broken = "no progress before the first case"
                    self.done = True
                    return
                # run the case alone once more before calling it a hang
                if self.rerun_alone(pr, 2 * stall):
                    self.slow += 1
                    self.next(pr[0] + 1)
                else:
                    self.crash(pr, f"hang:{pr[3]}", f"no result within {2*stall} s when run alone")
            return
        self.f.close()
        if rc == 0:
            self.done = True
            return
        err = open(self.err, "rb").read().decode("utf8", "replace")
        if pr is None:
            self.broken = f"exit {rc} before the first case: {err[-1500:]}"
            self.done = True
            return
        self.crash(pr, crash_key(rc, err, pr[3]), err[-6000:])

    def rerun_alone(self, pr, limit):
        try:
            r = subprocess.run(self.cmd + self.args + ["--suite", pr[3], "--case", str(pr[1]), "--out", self.out], timeout=limit,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for(self.spec), cwd=self.tmp)
            return True
        except subprocess.TimeoutExpired:
            return False

    def crash(self, pr, key, detail):
        self.crashes.append({"v": key, "suite": pr[3], "case": pr[0], "seed": str(pr[1]), "detail": detail, "input": pr[4], "cmd": os.path.basename(self.cmd[-1])})
        if len(self.crashes) >= MAX_CRASHES:
            self.done = True
            return
        self.next(pr[0] + 1)

    def next(self, start):
        self.start = start
        self.launch()


def run_check(prop, tier, seed, keep=False):
    t0 = time.time()
    spec = CHECKS[prop]
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    ok, out = harnesses.prepare(spec)
    if not ok:
        log(out[-5000:])
        log(f"ERROR: {prop}: the build failed; no verdict")
        return 2
    tb = time.time() - t0
    known = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    violations, stats, broken = [], [], []
    try:
        workers = []
        args = ["--seed", str(seed), "--tier", tier]
        for j, job in enumerate(spec["jobs"]):
            n = min(job.get("procs", NPROC), NPROC)
            for s in range(n):
                workers.append(Worker(spec, harnesses.command(job), args + job.get("args", []), tmp, f"j{j}s{s}", s, n))
        while not all(w.done for w in workers):
            for w in workers:
                w.poll(spec.get("stall", STALL_S[tier]))
            time.sleep(0.03)
        slow = sum(w.slow for w in workers)
        for w in workers:
            if w.broken:
                broken.append(w.broken)
            for c in w.crashes:
                violations.append(c)
            if os.path.exists(w.out):
                for line in open(w.out, errors="replace"):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        broken.append("unreadable log line: " + line[:200])
                        continue
                    if "v" in o:
                        o["cmd"] = os.path.basename(w.cmd[-1])
                        violations.append(o)
                    elif "stat" in o:
                        stats.append(o)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
    ev = sum(s["evaluations"] for s in stats)
    distinct = set()
    counters, suites, samples = {}, {}, []
    for s in stats:
        distinct.update(s.get("distinct", []))
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s["suites"].items():
            suites[k] = suites.get(k, 0) + v
        samples += s.get("samples", [])
    seen, smp = set(), []
    for x in samples:
        k = x.split(":", 1)[0]
        if k not in seen:
            seen.add(k)
            smp.append(x[:500])
    # verdicts
    bykey = {}
    for v in violations:
        bykey.setdefault(v["v"], []).append(v)
    new = {k: v for k, v in bykey.items() if k not in known}
    for k, what in known.items():
        if k in bykey:
            log(f"KNOWN-FINDING: property={prop} {what}")
        else:
            log(f"note: known finding {k} was not observed in this run")
    replays = os.path.join(vbuild.BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    for k, vs in sorted(new.items()):
        v = vs[0]
        v["property"], v["tier"], v["runseed"] = prop, tier, seed
        name = f"{prop}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json"
        path = os.path.join(replays, name)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        log(f"  {k}: suite {v['suite']} case {v['seed']}: {v['detail'][:600]}")
        log(f"    input: {v.get('input','')[:600]}")
        log(f"VIOLATION property={prop} replay={path}")
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(distinct),
            "rule": spec["rule"], "samples": smp[:12] or ["(none)"],
            "suites": suites, "observed": dict(sorted(counters.items())[:200]),
            "workers": len(stats), "slow_cases": slow if stats else 0, "build_s": round(tb, 1),
            "known_findings_observed": sorted(k for k in known if k in bykey),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(ev_path, "w") as f:
        json.dump(evidence, f, indent=1)
    log(f"{prop} {tier} seed {seed}: {ev} cases, {len(distinct)} distinct, {counters.get('checks',0)} oracle checks, "
        f"{len(new)} new violation(s), {wall:.1f} s (build {tb:.1f} s)")
    if new:
        return 1
    if broken:
        log("ERROR: " + "; ".join(broken)[:3000])
        return 2
    if ev == 0 or not stats or len(distinct) < spec.get("min_distinct", 20):
        log(f"ERROR: {prop}: the run observed too little ({ev} cases, {len(distinct)} distinct); no verdict")
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    spec = CHECKS[v["property"]]
    ok, out = harnesses.prepare(spec)
    if not ok:
        log(out[-3000:])
        return 2
    for job in spec["jobs"]:
        cmd = harnesses.command(job)
        if os.path.basename(cmd[-1]) != v["cmd"]:
            continue
        r = subprocess.run(cmd + job.get("args", []) + ["--seed", str(v["runseed"]), "--tier", v["tier"], "--suite", v["suite"], "--case", v["seed"],
                                  "--verbose"], env=env_for(spec))
        return r.returncode
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["setup", "check", "replay"])
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.what == "setup":
        sys.exit(harnesses.setup())
    if a.what == "replay":
        sys.exit(replay(a.id))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(run_check(a.id, a.tier, seed, a.keep))


main()
