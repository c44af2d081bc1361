#!/usr/bin/env python3
"""Builds the simulator driver from /repo's working tree, in two variants of the
library (debug: -O0 with assertions, release: -O2 without). Nothing is written
to /repo. Results are cached by content under /verif/build."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SECP = "/usr/lib/x86_64-linux-gnu/libsecp256k1.a"
LIBFLAGS = ["-std=gnu99", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion",
            "-Wno-error=incompatible-function-pointer-types", "-g", "-fno-common", "-fno-pie", "-femulated-tls",
            "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores",
            "-fno-builtin-printf", "-fno-builtin-fprintf"]
VARIANTS = {"debug": ["-O0"], "release": ["-O2", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize"],
            "plain": ["-O2", "-DNDEBUG"]}   # not instrumented: huge buffers only
# as Windows' compilers see the sources: MSVC (providers of Vista and later) and MinGW (older providers)
WIN = ["-isystem", os.path.join(VERIF, "sim/win"), "-DWIN32", "-D_WIN32", "-D_WIN64", "-U__linux__", "-U__linux", "-U__gnu_linux__", "-Ulinux", "-DSECP256K1_STATIC"]
WINDOWS = {"win": ["-O0", "-D_MSC_VER=1900", "-D_WIN32_WINNT=0x0601"] + WIN,
           "winold": ["-O2", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-D__MINGW32__"] + WIN}
# ... and with Windows' 32-bit long: the front end compiles for Windows, the back end for this system
RESOURCE = subprocess.run(["clang", "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
LLP64 = ["--target=x86_64-w64-windows-gnu", "-ffreestanding", "-nostdinc", "-D__ILP32__", "-gdwarf"]
LLP64_INC = ["-isystem", os.path.join(RESOURCE, "include"), "-isystem", os.path.join(VERIF, "sim/win/llp64"),
             "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include"]
# as the compilers of macOS and the BSDs, and those for other processors, see them
PORT = ["-isystem", os.path.join(VERIF, "sim/port"), "-U__linux__", "-U__linux", "-U__gnu_linux__", "-Ulinux"]
PORTS = {"apple": ["-O0", "-D__APPLE__"] + PORT,
         "openbsd": ["-O2", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-D__OpenBSD__"] + PORT,
         "freebsd": ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-D__FreeBSD__=14"] + PORT,
         "arm": ["-O2", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-funsigned-char"]}   # char has no sign on ARM and POWER

CXX = ["clang++", "-std=c++17", "-O1", "-g", "-fno-pie", "-Wall", "-Wno-unused-function"]
HARNESS_PURE = ["engine", "hooks", "ref", "selftest", "scen_world", "main"]
HARNESS_API = ["ct", "ops", "huge", "api", "scen_pool"]   # include headers of the library


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"add_library\s*\(\s*fingera_libc\b([^)]*)\)", t)
        fs = [os.path.join(REPO, x) for x in re.findall(r"[\w./-]+\.c\b", m.group(1))] if m else []
    except OSError:
        fs = []
    fs = [f for f in fs if os.path.exists(f)]
    if not fs:
        fs = sorted(glob.glob(os.path.join(REPO, "src/**/*.c"), recursive=True))
    return fs


def digest(paths, *extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in paths:
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:20]


def headers():
    return sorted(glob.glob(os.path.join(REPO, "include/**/*"), recursive=True) + glob.glob(os.path.join(REPO, "src/**/*.h"), recursive=True))


def compile_to(out, cmd):
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh(cmd + ["-o", tmp])
        os.rename(tmp, out)
    return out


def compile_llp64(out, fl, inc, src):
    """One file with Windows' sizes. False if that cannot be: a function with a
    variable number of arguments (their lists differ), or headers that glibc's cannot stand in for."""
    if os.path.exists(out):
        return True
    ll = "%s.%d.ll" % (out, os.getpid())
    own = [f for f in LIBFLAGS if not f.startswith("-fsanitize-coverage")]
    gnu = [] if "-D__MINGW32__" in fl else ["-U__MINGW32__", "-U__MINGW64__"]
    try:
        sh(["clang"] + LLP64 + own + gnu + fl + LLP64_INC + inc + ["-S", "-emit-llvm", "-Xclang", "-disable-llvm-passes", src, "-o", ll])
        t = open(ll).read()
        if "llvm.va_start" in t:
            return False
        for k, v in (("datalayout", "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"), ("triple", "x86_64-pc-linux-gnu")):
            t = re.sub(r'(?m)^target %s = ".*"$' % k, 'target %s = "%s"' % (k, v), t)
        open(ll, "w").write(t)
        sh(["clang", "-x", "ir"] + [f for f in LIBFLAGS if f.startswith(("-f", "-w"))] + [f for f in fl if re.match(r"-O\d|-f", f)] + ["-c", ll, "-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
        return True
    except BuildError as e:
        print("not with a 32-bit long: %s: %s" % (src, str(e)[-600:]), file=sys.stderr)
        return False
    finally:
        if os.path.exists(ll):
            os.remove(ll)


def symbols(obj):
    return [l.split()[-1] for l in sh(["nm", obj]).splitlines() if l.strip()]


def build(windows=False, ports=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(WINDOWS if windows else PORTS if ports else VARIANTS)


def _build(variants):
    simh = sorted(glob.glob(os.path.join(VERIF, "sim/*.h")) + glob.glob(os.path.join(VERIF, "sim/*.def")) + [f for d in ("win", "port") for f in glob.glob(os.path.join(VERIF, "sim", d, "**"), recursive=True) if os.path.isfile(f)])
    hdr = [h for h in headers() if os.path.isfile(h)]
    src = sources()
    if not src:
        raise BuildError("no sources in " + REPO)
    src = src + [os.path.join(VERIF, "sim/inl.c")]   # the functions in its headers
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    jobs = {}
    for n in HARNESS_PURE + HARNESS_API:
        p = os.path.join(VERIF, "sim", n + ".cpp")
        api = n in HARNESS_API
        k = digest([p] + simh + (hdr if api else []), CXX, REPO if api else "")
        out = os.path.join(BUILD, "h-%s-%s.o" % (n, k))
        jobs[("h", n)] = (out, CXX + (inc if api else []) + ["-c", p])
    for v, fl in variants.items():
        for s in src:
            k = digest([s] + hdr + (simh if s.startswith(VERIF) or v in WINDOWS or v in PORTS else []), LIBFLAGS, fl, LLP64 if v in WINDOWS else [])
            out = os.path.join(BUILD, "l-%s-%s-%s.o" % (v, os.path.basename(s), k))
            if v in WINDOWS:
                jobs[("w", v, s)] = (out[:-2] + "-32.o", fl, inc, s)
            jobs[("l", v, s)] = (out, ["clang"] + [f for f in LIBFLAGS if v != "plain" or not f.startswith("-fsanitize")] + fl + inc + ["-c", s])
    order = sorted(jobs, key=lambda k: k[0] != "h")
    with cf.ThreadPoolExecutor(8) as ex:
        done = dict(zip(order, ex.map(lambda k: compile_llp64(*jobs[k]) if k[0] == "w" else compile_to(*jobs[k]), order)))
    objs = {k: jobs[k][0] for k in jobs if k[0] != "w"}
    for k, ok in done.items():
        if k[0] == "w" and ok:
            objs[("l",) + k[1:]] = jobs[k][0]
    hooks = [s[len("sim_h_"):] for s in symbols(objs[("h", "hooks")]) if s.startswith("sim_h_")]
    libmap = "".join("%s sim_h_%s\n" % (s, s) for s in sorted(set(hooks))) + "stdout sim_stdout\nstderr sim_stderr\n"
    secpmap = "".join("%s sim_h_%s\n" % (s, s) for s in ("malloc", "free", "calloc", "realloc", "abort", "__fprintf_chk")) + "stderr sim_stderr\n"
    out = {}
    sk = hashlib.sha256(read(SECP) + secpmap.encode()).hexdigest()[:16]
    secp = os.path.join(BUILD, "secp-%s.a" % sk)
    if not os.path.exists(secp):
        m = secp + ".map"
        open(m, "w").write(secpmap)
        sh(["objcopy", "--redefine-syms=" + m, SECP, secp + ".tmp"])
        os.rename(secp + ".tmp", secp)

    def link(v):
        lo = [objs[("l", v, s)] for s in src]
        ho = [objs[("h", n)] for n in HARNESS_PURE + HARNESS_API]
        k = hashlib.sha256("\n".join([os.path.basename(x) for x in lo + ho] + [libmap, secp, digest([os.path.abspath(__file__)])]).encode()).hexdigest()[:20]
        drv = os.path.join(BUILD, "drv-%s-%s" % (v, k))
        if os.path.exists(drv):
            return drv
        base = os.path.join(BUILD, "lib-%s-%s" % (v, k))
        open(base + ".map", "w").write(libmap)
        sh(["ld", "-r", "-o", base + ".r.o"] + lo)
        secs = set(re.findall(r"^\s*\[\s*\d+\]\s+(\.\S+)", sh(["readelf", "-SW", base + ".r.o"]), re.M))
        ren = []
        for s in sorted(secs):
            if s == ".data" or s.startswith(".data.") and not s.startswith(".data.rel.ro"):
                ren.append("--rename-section=%s=fl_data" % s)
            elif s == ".bss" or s.startswith(".bss."):
                ren.append("--rename-section=%s=fl_bss,alloc" % s)
        sh(["objcopy", "--redefine-syms=" + base + ".map"] + ren + [base + ".r.o", base + ".o"])
        sh(["clang++", "-fsanitize=address", "-no-pie", "-Wl,-z,now", "-o", drv + ".tmp"] + ho + [base + ".o", secp, "-lpthread"])
        os.rename(drv + ".tmp", drv)
        for x in (base + ".r.o", base + ".map", base + ".o"):
            os.remove(x)
        return drv
    with cf.ThreadPoolExecutor(3) as ex:
        for v, d in zip(variants, ex.map(link, variants)):
            out[v] = d
    # drop what older trees left behind
    keep = set(objs.values()) | set(out.values()) | {secp}
    now = time.time()
    for f in glob.glob(os.path.join(BUILD, "*")):
        if os.path.isfile(f) and f not in keep and now - os.path.getmtime(f) > 3600:
            try:
                os.remove(f)
            except OSError:
                pass
    return out


if __name__ == "__main__":
    try:
        for v, d in list(build().items()) + (list(build(True).items()) if "win" in sys.argv[1:] else []) + (list(build(ports=True).items()) if "port" in sys.argv[1:] else []):
            print(v, d)
    except BuildError as e:
        print("BUILD ERROR\n%s" % e)
        sys.exit(2)
