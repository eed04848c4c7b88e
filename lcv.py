"""Build and run machinery: compiles /repo's current sources to LLVM bitcode, links them with a harness and the
library models, explores them with the symbolic executor (engine/), replays what it finds natively, writes evidence."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LCV_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 1)
DEFS = ["-DENABLE_GLCACHE=1", "-DINCLUDE_PRIV=1", "-DLOGLEVEL=7", "-DOS_LINUX", "-DSUPPORT_ZSTD_TRACE=1", "-DUSE_HUGEPAGE=1", "-DNDEBUG",
        "-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
SKIP = re.compile(r"unsupported|/LRB/|ketama|/ut/|/GLCache/|/dep/|/debug/|/test/|/xxhash\.c|/xxh_x86dispatch|/RIPQ|/LRU_K")
CORE_DIRS = ["cache", "dataStructure", "profiler", "traceReader", "utils"]


TSAN_LOCK = threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def engine():
    """build the executor if it is not there (setup_cmd normally did)"""
    out = os.path.join(VERIF, "build", "lcsym")
    srcs = sorted(glob.glob(os.path.join(VERIF, "engine", "*")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = sh(["llvm-config-18", "--cppflags"]).split()
    tmp = out + ".%d" % os.getpid()
    sh(["g++", "-std=c++17", "-O2", "-fno-rtti", "-w"] + flags + [os.path.join(VERIF, "engine", "lcsym.cpp"), "-o", tmp,
        "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    os.rename(tmp, out)
    with open(stamp, "w") as f:
        f.write(h)
    return out


def core_sources():
    fs = []
    for d in CORE_DIRS:
        for root, _, names in os.walk(os.path.join(REPO, "libCacheSim", d)):
            for n in sorted(names):
                if n.endswith((".c", ".cpp")):
                    p = os.path.join(root, n)
                    if not SKIP.search(p[len(REPO):]) and os.path.getsize(p) > 0:
                        fs.append(p)
    return sorted(fs)


BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-emit-llvm", "-w",
           "-fno-builtin-printf", "-fno-strict-aliasing"]
OPT = ["-passes=sroa,early-cse,instsimplify,simplifycfg"]
SHIM = ["-include", os.path.join(VERIF, "rt", "lc_shim.h"), "-I", os.path.join(REPO, "libCacheSim")] + \
    [x for d in ("admission", "eviction", "prefetch") for x in ("-I", os.path.join(REPO, "libCacheSim", "cache", d))]


class Build:
    def __init__(self, work):
        self.work = work
        self.bc = {}
        self.nat = {}
        self.base = None
        self.natlib = None
        self.t_build = 0

    def _bc1(self, src, tag="", extra=()):
        o = os.path.join(self.work, "bc", tag + src.replace("/", "_") + ".bc")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        pre = ["clang-18", "-x", "c++", "-std=c++17", "-fno-exceptions", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-threadsafe-statics"] if src.endswith(".cpp") else ["clang-18"]
        isrt = src.endswith("rt_engine.c")
        shim = [] if isrt else SHIM
        sh(pre + shim + DEFS + BCFLAGS + list(extra) + (["-ffreestanding"] if isrt else []) + ["-I", os.path.join(VERIF, "rt"), "-c", src, "-o", o + ".0"])
        sh(["opt-18"] + OPT + [o + ".0", "-o", o])
        os.unlink(o + ".0")
        return o

    def bitcode(self):
        if self.base:
            return self.base
        t = time.time()
        srcs = core_sources() + [os.path.join(VERIF, "rt", "rt_engine.c"), os.path.join(VERIF, "rt", "lc_common.c")]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(self._bc1, srcs))
        self.base = os.path.join(self.work, "base.bc")
        sh(["llvm-link-18", "-o", self.base] + objs)
        self.t_build += time.time() - t
        return self.base

    @staticmethod
    def directives(h):
        extra, flags, nocore = [], [], []
        for l in open(h):
            m = re.match(r"// (SOURCES|FLAGS|CORE): (.*)", l)
            if m:
                {"SOURCES": extra, "FLAGS": flags, "CORE": nocore}[m.group(1)].extend(x.replace("$VERIF", VERIF) for x in m.group(2).split())
        return extra, flags, nocore

    def harness_bc(self, name):
        if name in self.bc:
            return self.bc[name]
        self.bitcode()
        t = time.time()
        h = os.path.join(VERIF, "harness", name)
        extra, flags, _ = self.directives(h)
        flags = [f.replace("$REPO", REPO).replace("$VERIF", VERIF) for f in flags]
        objs = [self._bc1(h, name, flags)] + [self._bc1(os.path.join(REPO, e), name, flags) for e in extra]
        out = os.path.join(self.work, name + ".bc")
        sh(["llvm-link-18", "-o", out + ".0", self.base] + objs)
        sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=lc_main", out + ".0", "-o", out])
        os.unlink(out + ".0")
        self.bc[name] = out
        self.t_build += time.time() - t
        return out

    NFLAGS = ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fno-strict-aliasing"]

    def _nat1(self, src, tag="", extra=(), san="address"):
        o = os.path.join(self.work, "nat" if san == "address" else "nat-" + san, tag + src.replace("/", "_") + ".o")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        cc = ["g++", "-std=c++17"] if src.endswith(".cpp") else ["gcc"]
        shim = [] if src.endswith("lc_native.c") else SHIM
        sh(cc + shim + DEFS + ["-fsanitize=" + san] + self.NFLAGS + list(extra) + ["-I", os.path.join(VERIF, "rt"), "-c", src, "-o", o])
        return o

    def native_tsan(self, name):
        """a build under ThreadSanitizer: confirms reported data races"""
        srcs = core_sources() + [os.path.join(VERIF, "rt", "lc_common.c"), os.path.join(VERIF, "rt", "lc_native.c")]
        h = os.path.join(VERIF, "harness", name)
        extra, flags, _ = self.directives(h)
        flags = [f.replace("$REPO", REPO).replace("$VERIF", VERIF) for f in flags]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda s: self._nat1(s, san="thread"), srcs)) + [self._nat1(h, name, flags, san="thread")] + [self._nat1(os.path.join(REPO, e), name, flags, san="thread") for e in extra]
        exe = os.path.join(self.work, name + ".tsan.exe")
        sh(["g++", "-fsanitize=thread", "-Wl,--wrap=mmap", "-Wl,--wrap=munmap", "-o", exe] + objs + ["-lglib-2.0", "-lzstd", "-lm", "-lpthread", "-ldl"])
        return exe

    def native(self, name):
        if name in self.nat:
            return self.nat[name]
        t = time.time()
        if not self.natlib:
            srcs = core_sources() + [os.path.join(VERIF, "rt", "lc_common.c"), os.path.join(VERIF, "rt", "lc_native.c")]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(self._nat1, srcs))
            self.natlib = os.path.join(self.work, "libnat.a")
            sh(["ar", "rcs", self.natlib] + objs)
        h = os.path.join(VERIF, "harness", name)
        extra, flags, _ = self.directives(h)
        flags = [f.replace("$REPO", REPO).replace("$VERIF", VERIF) for f in flags]
        objs = [self._nat1(h, name, flags)]
        for e in extra:  # a program's main is called by its harness
            objs.append(self._nat1(os.path.join(REPO, e), name, flags))
            sh(["objcopy", "--redefine-sym", "main=tool_main", objs[-1]])
        exe = os.path.join(self.work, name + ".exe")
        sh(["g++", "-fsanitize=address", "-Wl,--wrap=mmap", "-Wl,--wrap=munmap", "-o", exe] + objs + [self.natlib, "-lglib-2.0", "-lzstd", "-lm", "-lpthread", "-ldl"])
        self.nat[name] = exe
        self.t_build += time.time() - t
        return exe


def params_str(p):
    return ";".join("%s=%s" % kv for kv in sorted(p.items()))


def native_run(exe, params, values, timeout=20, fill=None, extra_env=None):
    d = tempfile.mkdtemp(prefix="lcvrun")
    try:
        rp = os.path.join(d, "replay.txt")
        with open(rp, "w") as f:
            for n, v in values:
                f.write("%s %d\n" % (n, v))
        env = dict(os.environ, LC_REPLAY=rp, LC_PARAMS=params_str(params), LC_DIR=d,
                   ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1" + (":max_malloc_fill_size=65536:malloc_fill_byte=%d" % fill if fill is not None else ""), **(extra_env or {}))
        try:
            r = subprocess.run([exe], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirms(v, exe, params, build=None, harness=None):
    """replay a violation against the native build; returns (bool, text)"""
    if v["kind"] == "race":
        if not build:
            return False, "no build for races"
        with TSAN_LOCK:
            if not getattr(build, "tsan", None):
                build.tsan = build.native_tsan(harness)
        for _ in range(5):
            rc, out, err = native_run(build.tsan, params, v["values"], extra_env={"LC_FREE": "1", "TSAN_OPTIONS": "exitcode=66:suppressions=" + os.path.join(VERIF, "rt", "tsan.supp")})
            for rep in err.split("WARNING: ThreadSanitizer: data race")[1:]:
                if re.search(r"ead of size \d+ at \S+ by main thread", rep):
                    continue  # the progress counter
                m = re.search(r"#0 (\S+ \S+)", rep)
                return True, "ThreadSanitizer: data race at %s" % (m.group(1) if m else "?")
        return False, "ThreadSanitizer reports no race (exit %s) %s" % (rc, err[-300:])
    tries = [None, 0xbe, 0x00, 0xff, 0x01] if v.get("uninit") else [None]
    text = ""
    for fill in tries:
        rc, out, err = native_run(exe, params, v["values"], fill=fill)
        last = (out.strip().splitlines() or [""])[-1]
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        text = "exit=%s %s %s" % (rc, last[-200:], m.group(1)[:200] if m else "")
        if rc == 70 and "LC_FAIL" in out:
            return True, text
        if rc == "timeout":
            if v["kind"] in ("hang", "deadlock"):
                return True, "does not terminate within the replay time limit"
            continue
        if rc in (99,) or (isinstance(rc, int) and rc < 0):
            return True, text
        if v["kind"] == "abort" and rc not in (0, 77, 78, 79):
            return True, text
    return False, text


class Job:
    def __init__(self, name, harness, params=None, covers=(), time=120, steps=20000000, samples=6, extra=(), known=None, forkvalues=400, expect_incomplete=False):
        self.name, self.harness, self.params, self.covers = name, harness, dict(params or {}), tuple(covers)
        self.time, self.steps, self.samples, self.extra, self.known, self.forkvalues = time, steps, samples, list(extra), known, forkvalues


def run_engine(eng, bc, job, work, seed):
    out = os.path.join(work, "out_%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", job.name))
    cmd = [eng, bc, "--out=" + out, "--max-time=%g" % job.time, "--max-steps=%d" % job.steps, "--samples=%d" % job.samples, "--seed=%d" % seed,
           "--max-fork-values=%d" % job.forkvalues] + ["--param=%s=%s" % kv for kv in job.params.items()] + job.extra
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=job.time + 60)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, txt = 2, "engine exceeded its time limit"
    d = {}
    if os.path.exists(out):
        d = json.load(open(out))
        os.unlink(out)
    d["rc"], d["text"], d["secs"] = rc, txt[-1500:], time.time() - t
    if rc not in (0, 1, 2, 3) or not d.get("paths", 0) and rc == 0:
        d.setdefault("errors", []).append("engine exit %s: %s" % (rc, txt[-500:]))
    return d
