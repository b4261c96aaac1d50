"""Common driver of the Python monitors: the same command line, case sequence, verdict log and progress
record as the C++ monitors (harness/common/harness.hpp)."""
import ctypes, hashlib, json, math, mmap, os, random, struct, sys, traceback


class Skip(Exception):
    """ends a case that is outside the monitored domain"""


def h64(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "little")


class Ctx:
    def __init__(self):
        self.counters, self.per_key, self.samples, self.distinct = {}, {}, [], set()
        self.evaluations = self.violations = 0
        self.prog = None
        self.verbose = False

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def announce(self, desc):
        self.desc = desc
        if self.prog is not None:
            b = desc.encode("ascii", "replace")[:8191]
            self.prog[88:88 + len(b) + 1] = b + b"\0"

    def fail(self, key, detail=""):
        self.violations += 1
        self.per_key[key] = self.per_key.get(key, 0) + 1
        if self.per_key[key] <= 3:
            self.out.write(json.dumps({"v": key, "suite": self.suite, "case": self.index, "seed": str(self.case_seed),
                                       "detail": str(detail)[:1500], "input": self.desc[:4000]}) + "\n")
            self.out.flush()
        if self.verbose:
            print("FAIL", key, detail, "\n" + self.desc, file=sys.stderr)

    def check(self, ok, key, detail=""):
        self.count("checks")
        if not ok:
            self.fail(key, detail() if callable(detail) else detail)
        return bool(ok)

    def raises(self, f, key, kinds=(Exception,), detail=""):
        """f must raise one of the kinds"""
        self.count("checks")
        self.count("refusals expected")
        try:
            r = f()
        except kinds as e:
            return e
        except Exception as e:
            self.fail(key, f"{detail} raised {type(e).__name__}: {e}")
            return None
        self.fail(key, f"{detail} returned {str(r)[:200]}")
        return None


def gc_limit(v=2**64 - 1):
    """from how many entries on packages created from now on collect garbage by themselves"""
    global _lib
    if _lib is None:
        import mqt.core
        _lib = ctypes.CDLL(os.path.join(os.path.dirname(mqt.core.__file__), "libvfcore.so"))
    ctypes.c_size_t.in_dll(_lib, "_ZN2dd12verifGCLimitE").value = v


_lib = None


def rnd_gc_limit(r):
    gc_limit(r.choice([0, 1, 3, 10, 30, 100]) if r.random() < 0.5 else 2**64 - 1)


class Suite:
    def __init__(self, name, quick, thorough, run, fixed=False):
        self.name, self.quick, self.thorough, self.run, self.fixed = name, quick, thorough, run, fixed


def main(prop, suites):
    a, av = {}, sys.argv[1:]
    i = 0
    while i < len(av):
        k = av[i]
        if i + 1 < len(av) and not av[i + 1].startswith("--"):
            a[k[2:]] = av[i + 1]
            i += 1
        else:
            a[k[2:]] = "1"
        i += 1
    seed, thorough = int(a.get("seed", 1)), a.get("tier") == "thorough"
    shard, nshards, start, scale = int(a.get("shard", 0)), int(a.get("nshards", 1)), int(a.get("start", 0)), float(a.get("scale", 1))
    c = Ctx()
    c.thorough = thorough
    c.verbose = "verbose" in a
    c.out = open(a["out"], "a") if "out" in a else sys.stdout
    if "progress" in a:
        f = os.open(a["progress"], os.O_RDWR | os.O_CREAT, 0o644)
        os.ftruncate(f, 24 + 64 + 8192)
        c.prog = mmap.mmap(f, 24 + 64 + 8192)
    seq = []
    for s in suites:
        if a.get("suite", s.name) != s.name:
            continue
        n = s.thorough if thorough else s.quick
        if not s.fixed:
            n = math.ceil(n * scale)
        seq += [((j + 0.5) / n, s, j) for j in range(n)]
    seq.sort(key=lambda x: x[0])
    per = {}
    for i in range(start, len(seq)):
        if i % nshards != shard:
            continue
        _, s, j = seq[i]
        cs = j if s.fixed else h64(f"{seed}|{prop}|{s.name}|{j}")
        if "case" in a and a["case"] != str(cs):
            continue
        c.suite, c.case_seed, c.index, c.local = s.name, cs, i, j
        c.rng = random.Random(cs)
        c.desc, c.fingerprint, c.nontrivial = "", "", True
        if c.prog is not None:
            done = struct.unpack("<Q", c.prog[16:24])[0]
            c.prog[0:89] = struct.pack("<QQQ", i, cs, done) + s.name.encode()[:63].ljust(64, b"\0") + b"\0"
        if _lib is not None:
            gc_limit()
        try:
            s.run(c)
            c.evaluations += 1
            per[s.name] = per.get(s.name, 0) + 1
            if c.nontrivial:
                c.distinct.add(h64(s.name + "|" + (c.fingerprint or c.desc)))
                if len(c.samples) < 40 and c.desc and per[s.name] <= 1:
                    c.samples.append(s.name + ": " + c.desc[:600])
        except Skip:
            c.count("skipped:" + s.name)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{os.path.basename(t.filename)}:{t.name}" for t in reversed(tb[-4:]))
            c.fail(f"unexpected-exception:{s.name}", f"{type(e).__name__}: {e} at {where}")
            if c.verbose:
                traceback.print_exc()
        if c.prog is not None:
            c.prog[16:24] = struct.pack("<Q", i + 1)
    c.out.write(json.dumps({"stat": 1, "total": len(seq), "evaluations": c.evaluations, "violations": c.violations, "suites": per,
                            "counters": c.counters, "samples": c.samples, "distinct": ["%x" % x for x in c.distinct]}) + "\n")
    c.out.flush()
    # leave without running the finalizers of half a million objects
    os._exit(0)
