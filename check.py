#!/usr/bin/env python3
"""Decides one property: check.py PROP. Builds the simulator from /repo's tree,
searches seeds in both variants of the library on all cores, gates, minimises and
reports a violation, and writes evidence/PROP.json.

VERIF_SEED   seed of the search (default 1)
VERIF_TIER   quick (default) or thorough
SIM_BUDGET   seconds of search, instead of the tier's"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
QUICK, THOROUGH = 22, 480
WINDOWS = ("C22", "C23")   # decided on the Windows branches
PORTS = ("C24",)           # on those for macOS, the BSDs, and processors whose char has no sign
WORKERS = 8
REAL = ["every source file of fingera_libc, compiled from /repo's tree in two variants (-O0 with assertions; -O2 -DNDEBUG; for C07, C08 and C18 also without instrumentation, for huge buffers)",
        "libsecp256k1 (the installed static library)", "glibc stdio, string and locale code (streams end in the simulated write)"]
STUBS = ["system calls: open/openat/read/getrandom/close/fcntl/ioctl/write/exit/abort, the random device, file descriptors",
         "malloc/free/calloc/realloc (per simulated process, with injected failure)", "threads, mutexes and preemption (coroutines under a seeded scheduler)",
         "clock, network, disks and process crashes of the worlds of several nodes", "callers: generated programs and reference models"]
REAL_WIN = ["every source file of fingera_libc, compiled from /repo's tree as Windows' compilers see it (MSVC: -O0 with assertions; MinGW: -O2 -DNDEBUG), by clang for this machine"] + REAL[1:]
STUBS_WIN = ["Windows' headers and functions: both provider generations, last errors, system messages, secure zeroing, byte swaps"]
SCEN = json.load(open(os.path.join(VERIF, "scenarios.json")))


def h64(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")


def known(prop):
    """known: property=ID class=CLASS kind=KIND detail=REGEX   (fixed: lines suppress nothing)"""
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) class=(\S+) kind=(\S+) detail=(.*)", l.strip())
        if m and m.group(1) == prop:
            r.append(m.groups()[1:] + (l.strip(),))
    return r


def parse(path):
    t = open(path, errors="replace").read()
    g = lambda k: (re.search(r"^%s (.*)$" % k, t, re.M) or [None, ""])[1]
    return {"class": g("violation"), "detail": g("detail"), "kind": g("kind"), "hash": g("hash")}


def replay(drv, path, limit=240):
    try:
        r = subprocess.run([drv, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit, errors="replace")
    except subprocess.TimeoutExpired:
        return None
    g = lambda k: (re.search(r"^%s (.*)$" % k, r.stdout, re.M) or [None, ""])[1]
    if r.returncode != 10:
        return None
    return g("class"), g("detail"), g("hash")


class Worker:
    def __init__(self, n, drv, variant, prop, seed, dirn):
        self.n, self.drv, self.variant, self.prop, self.dir = n, drv, variant, prop, os.path.join(dirn, "w%d" % n)
        self.seed, self.parts, self.k, self.p, self.errors = seed, [], 0, None, []
        os.makedirs(self.dir)

    def start(self, until):
        left = until - time.time()
        if left <= 0.3 and self.k:
            self.p = None
            return
        st = os.path.join(self.dir, "state%d" % self.k)
        self.k += 1
        self.parts.append(st)
        self.p = subprocess.Popen([self.drv, "batch", self.prop, self.variant, str(self.seed), "1000000000", str(WORKERS), "%.2f" % left, st, self.dir],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)

    def state(self, i=-1):
        try:
            return json.load(open(self.parts[i]))
        except (OSError, ValueError):
            return None


def search(prop, seed0, drv, dirn, budget, skip, report):
    """Runs the workers; calls report(worker, path) for each violation until it says stop."""
    until = time.time() + budget
    ws = []
    for n in range(WORKERS):
        vs = ("win", "winold") if prop in WINDOWS else ("apple", "openbsd", "freebsd", "arm") if prop in PORTS else ("debug", "release")
        v = vs[n % len(vs)]
        if n >= 4 and prop in ("C07", "C08") or n >= 6 and prop == "C18":
            v = "plain"   # huge buffers
        w = Worker(n, drv[v], v, prop, seed0 + n, dirn)
        w.start(until)
        ws.append(w)
    seen, stop = set(), False
    while not stop and any(w.p for w in ws):
        time.sleep(0.05)
        for w in ws:
            if not w.p or w.p.poll() is None:
                continue
            rc, s = w.p.returncode, w.state()
            w.p = None
            if s is None:
                w.errors.append("worker ended with %s and no state" % rc)
                continue
            w.seed = s["next_seed"]
            for v in s["viols"]:
                if v not in seen:
                    seen.add(v)
                    if report(w, v):
                        stop = True
            if rc not in (0, 1, 10):
                w.errors.append("worker ended with %s near seed %d" % (rc, w.seed))
                w.seed += WORKERS * 64
                if len(w.errors) > 3:
                    continue
            if rc != 0 and not stop:
                w.start(until)
    for w in ws:
        if w.p:
            w.p.kill()
            w.p.wait()
            w.p = None
    return ws


def gate(drv, path):
    """the recorded plan, in fresh processes, does the same again"""
    a = replay(drv, path)
    b = a and replay(drv, path)
    return a if a and a == b else None


def merge(ws):
    c = {"runs": 0, "audits": 0, "yields": 0, "switches": 0, "syscalls": 0, "mallocs": 0, "calls": 0, "simtime_ms": 0, "slowest": 0}
    maps = {"fired": {}, "offered": {}, "probes": {}, "ops": {}}
    dist, inter, cov, edges, mism, errors, samples, variants = set(), set(), {}, {}, [], [], [], {}
    for w in ws:
        errors += w.errors
        for i in range(len(w.parts)):
            s = w.state(i)
            if not s:
                continue
            for k in c:
                c[k] = c[k] + s[k] if k != "slowest" else max(c[k], s[k])
            variants[w.variant] = variants.get(w.variant, 0) + s["runs"]
            for k in maps:
                for a, b in s[k].items():
                    maps[k][a] = maps[k].get(a, 0) + b
            for ext, d in ((".h", dist), (".i", inter)):
                try:
                    b = open(w.parts[i] + ext, "rb").read()
                    d.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
                except OSError:
                    pass
            cov[w.variant] = cov.get(w.variant, 0) | int("".join("%x" % int(ch, 16) for ch in s["cov"])[::-1] or "0", 16)
            edges[w.variant] = s["edges"]
            if s["mismatch"]:
                mism.append(w.variant + " " + s["mismatch"])
            if len(samples) < 3 and s["samples"]:
                samples.append(s["samples"][0])
    return c, maps, dist, inter, cov, edges, mism, errors, samples, variants


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sc = SCEN[prop]
    budget = float(os.environ.get("SIM_BUDGET", 0)) or (sc.get("quick", QUICK) if tier == "quick" else sc.get("thorough", THOROUGH))
    t0 = time.time()
    try:
        drv = build.build(windows=prop in WINDOWS, ports=prop in PORTS)
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 2
    for v in drv:
        r = subprocess.run([drv[v], "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.stdout.strip() != "ok":
            print("the reference models fail their own test vectors: " + r.stdout[-500:])
            return 2
    built = time.time() - t0
    dirn = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=build.BUILD)
    kn, hit_known, bad, found, slow = known(prop), set(), [], [], []

    def report(w, path):
        g = gate(w.drv, path)
        r = parse(path)
        if (not g or g[0] != r["class"]) and "processor time" in r["detail"]:
            slow.append(os.path.basename(path))   # a run that is merely long, at the edge of the limit
            return False
        if not g or g[0] != r["class"]:
            bad.append("%s: %s %s" % (os.path.basename(path), r["class"], r["detail"]))
            return len(bad) >= 12
        for k in kn:
            if r["class"] == k[0] and (k[1] == "*" or r["kind"] == k[1]) and re.search(k[2], r["detail"]):
                hit_known.add(k[3])
                return False
        found.append((w, path, g))
        return True
    seed0 = h64(prop, seed)
    try:
        ts = time.time()
        ws = search(prop, seed0, drv, dirn, budget, None, report)
        searched = time.time() - ts
        c, maps, dist, inter, cov, edges, mism, errors, samples, variants = merge(ws)
        vio = None
        if found:
            w, path, g = found[0]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            out = os.path.join(VERIF, "replays", "%s-%s.replay" % (prop, re.sub(r"[^\w.-]", "_", os.path.basename(path)[5:-7])))
            small = path + ".min"
            lim = 25 if tier == "quick" else 120
            try:
                subprocess.run([w.drv, "minimise", path, small, str(lim)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=lim + 60)
            except subprocess.TimeoutExpired:
                pass
            use = path
            if os.path.exists(small) and gate(w.drv, small):
                use = small
            shutil.copy(use, out)
            vio = (out, parse(out))
    finally:
        shutil.rmtree(dirn, ignore_errors=True)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": c["runs"], "distinct_nontrivial": len(dist),
              "rule": sc["rule"] + " A run counts as non-trivial when a fault fired, threads were switched between, or the scenario's own marker was set; two runs are distinct when the hashes of their full histories (calls, system calls, results, faults, messages, writes) differ.",
              "samples": samples or ["no run finished"],
              "runs_by_variant": variants, "search_s": round(searched, 2), "build_s": round(built, 2),
              "runs_and_seeds_per_hour": int(c["runs"] / max(searched, 0.01) * 3600), "seeds": "every run has a seed of its own",
              "first_seed": seed0, "simulated_time_s": c["simtime_ms"] / 1000.0, "longest_run_s": c["slowest"],
              "faults_fired": maps["fired"], "faults_offered": maps["offered"], "operations": maps["ops"], "reached": maps["probes"],
              "distinct_interleavings": len(inter), "interleaving_measure": "hash of the sequence of (preemption point, thread chosen) of a run; only runs with at least one switch",
              "library_edges_covered": {v: "%d of %d" % (bin(cov[v]).count("1"), edges[v]) for v in cov},
              "preemption_points": c["yields"], "thread_switches": c["switches"], "simulated_system_calls": c["syscalls"],
              "library_calls": c["calls"], "allocations": c["mallocs"],
              "determinism_audits": c["audits"], "determinism_mismatches": mism, "worker_errors": errors, "unreproduced": bad, "slow_runs_not_judged": slow,
              "real_components": (REAL_WIN if prop in WINDOWS else REAL), "stubbed_components": STUBS + (STUBS_WIN if prop in WINDOWS else [])},
          "assumptions": sc["assumptions"], "wall_s": round(wall, 2), "violations": 1 if vio else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs in %.1f s (%d distinct non-trivial, %d interleavings), %d faults, %.1f s with build" %
          (prop, c["runs"], searched, len(dist), len(inter), sum(maps["fired"].values()), wall))
    for k in kn:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k[3], "" if k[3] in hit_known else " (not met in this run)"))
    if vio:
        out, r = vio
        print("%s: %s" % (r["class"], r["detail"]))
        print("replay: %s replay %s" % (found[0][0].drv, out))
        print("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    if bad or mism or errors:
        print("the simulator misbehaved, nothing is decided:")
        for x in (bad + mism + errors)[:10]:
            print("  " + x)
        return 2
    if not c["runs"] or not dist:
        print("nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
