"""Build and run machinery: repository + harness -> bitcode -> symx -> (native replay)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
RT, SHIMS, HARN, ENG = (os.path.join(VERIF, d) for d in ("rt", "shims", "harness", "engine"))
SYMX, SXINSTR = os.path.join(BUILD, "symx"), os.path.join(BUILD, "sxinstr")
NATIVE_O = os.path.join(BUILD, "sx_native.o")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
BASEF = ["-std=c++17", "-O1", "-DNDEBUG", "-DIS_RELEASE=1", "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize",
         "-fno-slp-vectorize", "-fno-strict-aliasing", "-gline-tables-only", "-Wno-everything", "-I" + SHIMS, "-I" + HARN,
         "-I" + REPO + "/EigenIPC/include", "-I" + REPO + "/EigenIPC/src",
         "-I" + REPO + "/EigenIPC/bindings/PyEigenIPC/include", "-I" + REPO + "/EigenIPC/bindings/PyEigenIPC/src",
         "-I/usr/include/eigen3", "-emit-llvm", "-c"]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True); self.p = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def ensure_engine():
    with Lock("engine"):
        r = run(["make", "-s", "-j4", "-C", ENG, "BUILD=" + BUILD, "all"])
        if r.returncode: raise BuildError(r.stdout)

def fhash(p):
    try:
        with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return "missing"

_memo = {}
def compile_bc(src, flags=None, lang=None):
    """compile one file to bitcode; cached by the content of every non-system file it reads"""
    flags = BASEF if flags is None else flags
    key = hashlib.sha256((src + "|" + " ".join(flags)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bc", os.path.basename(src) + "." + key + ".bc"); meta = out + ".deps"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with Lock("bc_" + key):
        if os.path.exists(out) and os.path.exists(meta):
            d = json.load(open(meta))
            if all(fhash(p) == h for p, h in d.items()): return out
        dep = out + ".d"
        cc = ["clang"] if src.endswith(".c") else ["clang++"]
        r = run(cc + flags + ["-MMD", "-MF", dep, src, "-o", out])
        if r.returncode:
            raise BuildError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))
        t = open(dep).read().split(":", 1)[1].replace("\\\n", " ").split()
        json.dump({p: fhash(p) for p in t if not p.startswith("/usr/")}, open(meta, "w"))
    return out

CRT = ["-O1", "-ffreestanding", "-fno-builtin", "-Wno-everything", "-emit-llvm", "-c"]
CXXRT = ["-std=c++17", "-O1", "-fno-builtin", "-fno-vectorize", "-Wno-everything", "-emit-llvm", "-c"]
MODELF = ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-Wno-everything", "-emit-llvm", "-c"]
SRC = REPO + "/EigenIPC/src/"
PYSRC = REPO + "/EigenIPC/bindings/PyEigenIPC/src/"

def link(name, harness, repo_tus, flags_extra=()):
    """returns (engine bitcode, native-base bitcode)"""
    fl = list(flags_extra) + BASEF
    todo = [(os.path.join(HARN, harness), fl)] + [(t, fl) for t in repo_tus] + [(RT + "/model.cpp", MODELF), (RT + "/symrt.cpp", CXXRT), (RT + "/symrt_c.c", CRT)]
    with ThreadPoolExecutor(JOBS) as ex:
        bcs = list(ex.map(lambda a: compile_bc(*a), todo))
    h = hashlib.sha256("|".join(b + ":" + fhash(b) for b in bcs).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "link"); os.makedirs(d, exist_ok=True)
    eng, nat = os.path.join(d, name + "." + h + ".bc"), os.path.join(d, name + "." + h + ".nat.bc")
    with Lock("link_" + name):
        if not os.path.exists(eng):
            for f in os.listdir(d):
                if f.startswith(name + "."): os.unlink(os.path.join(d, f))
            for o, l in ((nat, bcs[:-2]), (eng, bcs)):
                r = run(["llvm-link-18"] + l + ["-o", o + ".tmp"])
                if r.returncode: raise BuildError("link: " + r.stdout[-3000:])
                os.rename(o + ".tmp", o)
    return eng, nat

def build_native(nat_bc, entry):
    h = fhash(nat_bc)[:16]; d = os.path.join(BUILD, "nat"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s.%s" % (entry, h))  # several harness links may contain the same entry
    with Lock("nat_" + entry):
        if os.path.exists(exe): return exe
        for f in os.listdir(d):
            if f.startswith(entry + "."): os.unlink(os.path.join(d, f))
        with Lock("nativert"):
            if not os.path.exists(NATIVE_O) or os.path.getmtime(NATIVE_O) < os.path.getmtime(RT + "/sx_native.cpp"):
                r = run(["clang++", "-O1", "-g1", "-std=c++17", "-c", RT + "/sx_native.cpp", "-o", NATIVE_O])
                if r.returncode: raise BuildError(r.stdout)
        t = exe + ".t"
        # keep the entry and every model function (they are bound to external names by sxinstr)
        r = run([SXINSTR, nat_bc, t + "1.bc", entry, "asan"])
        if r.returncode: raise BuildError("sxinstr: " + r.stdout)
        r = run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=SX_ENTRY", t + "1.bc", "-o", t + "2.bc"])
        if r.returncode: raise BuildError("opt: " + r.stdout)
        r = run(["clang++", "-O1", "-fsanitize=address", "-Wno-everything", t + "2.bc", "-c", "-o", t + ".o"])
        if r.returncode: raise BuildError("native compile: " + r.stdout[-3000:])
        r = run(["clang++", "-fsanitize=address", t + ".o", NATIVE_O, "-lpthread", "-o", exe])
        if r.returncode: raise BuildError("native link: " + r.stdout[-3000:])
        for s in ("1.bc", "2.bc", ".o"): os.unlink(t + s)
    return exe

def write_replay(path, v, cfg, maxcrashes, entry):
    with open(path, "w") as f:
        f.write("# replay of '%s' (%s) in entry %s: %s\n" % (v["label"], v["kind"], entry, v["detail"].replace("\n", " ")))
        for k, x in sorted(cfg.items()): f.write("cfg %s %d\n" % (k, x))
        f.write("crashes %d\n" % maxcrashes)
        f.write("sched " + " ".join(map(str, v["sched"])) + "\n")
        for n, h in v["syms"]: f.write("sym %s %s\n" % (h if h.strip("0") else "00", n))
        for l in v["stack"]: f.write("# at %s\n" % l)
        for l in v["obs"]: f.write("# obs %s\n" % l)

def run_native(exe, replay, timeout=40):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:alloc_dealloc_mismatch=0:abort_on_error=0")
    try:
        r = subprocess.run([exe, replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"rc": -1, "fails": ["hang"], "reach": [], "ended": False, "notes": [], "diverged": False, "err": ""}
    out = r.stdout.decode("latin1"); lines = [l for l in out.splitlines() if l.startswith("SX ")]
    g = lambda k: [l[len("SX " + k) + 1:] for l in lines if l.startswith("SX " + k + " ")]
    fails = g("FAIL")
    if r.returncode == 77: fails.append("memory-safety")
    if r.returncode == -14: fails.append("hang")
    if r.returncode in (-6,): fails.append("abort")
    if r.returncode in (-11, -7, -8): fails.append("memory-safety"); fails.append("null-dereference")
    return {"rc": r.returncode, "fails": fails, "reach": g("REACH"), "obs": g("OBS"), "notes": g("NOTE"), "diverged": bool(g("DIVERGED")), "ended": any(l.startswith("SX END") for l in lines), "err": r.stderr.decode("latin1")[-3000:], "div": g("DIVERGED")}

MEMLABELS = {"memory-safety", "null-dereference", "out-of-bounds", "use-after-free", "double-free", "invalid-free", "write-to-constant", "bad-call", "stack-overflow", "trap", "abort"}
def reproduced(v, n):
    if n["diverged"]: return False
    if v["label"] in n["fails"]: return True
    if v["label"] in MEMLABELS and set(n["fails"]) & (MEMLABELS | {"terminate"}): return True
    if v["label"] == "hang" and ("hang" in n["fails"] or "deadlock" in n["fails"]): return True
    return False

def link_of(job):
    return link(job.harness.split(".")[0] + "_" + hashlib.sha1("|".join(list(job.flags) + list(job.tus)).encode()).hexdigest()[:6], job.harness, job.tus, job.flags)

MEMLIMIT = 6 << 30
def limit():
    import resource; resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, MEMLIMIT))

class Job:
    """one symbolic-execution run"""
    def __init__(self, harness, entry, tus, cfg=None, preempt=-1, time=300, crashes=0, maxinst=40000000, bounds="", flags=(), need=(), perlabel=1, extra=(), weight=1):
        self.harness, self.entry, self.tus, self.cfg, self.preempt, self.time, self.crashes, self.maxinst, self.bounds, self.flags, self.need, self.perlabel = harness, entry, tus, dict(cfg or {}), preempt, time, crashes, maxinst, bounds, flags, need, perlabel
        self.extra = list(extra); self.weight = weight
    @property
    def name(self):
        l = ["%s=%d" % kv for kv in sorted(self.cfg.items())] + (["preemptions<=%d" % self.preempt] if self.preempt >= 0 else []) + (["crashes<=%d" % self.crashes] if self.crashes else [])
        return self.entry + ("[" + ",".join(l) + "]" if l else "")

stop_at = None   # set once a violation is confirmed: the other jobs get a little longer, then end
deadline = None  # end of the whole check's time

def run_job(job, workdir, grace=None):
    eng, nat = link_of(job)
    job.nat = nat
    out = os.path.join(workdir, hashlib.sha1(job.name.encode()).hexdigest()[:12] + ".json")
    budget = job.time if not deadline else max(20, min(job.time, deadline - time.time()))
    cmd = [SYMX, eng, "--entry", job.entry, "--out", out, "--time", str(int(budget)), "--max-inst", str(job.maxinst), "--preempt", str(job.preempt), "--crashes", str(job.crashes), "--per-label", str(job.perlabel), "--repo", REPO + "/"]
    for k, x in job.cfg.items(): cmd += ["--cfg", "%s=%d" % (k, x)]
    if grace is not None: cmd += ["--grace", str(grace)]
    cmd += job.extra
    if os.path.exists(out): os.unlink(out)
    none = {"violations": [], "witnesses": [], "functions": []}
    if stop_at and time.time() > stop_at: return dict(none, error="not run", stopped=True)
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limit); end = time.time() + budget + 60
        while True:
            try: p.wait(1); break
            except subprocess.TimeoutExpired: pass
            if (stop_at and time.time() > stop_at) or time.time() > end:
                p.kill(); p.wait(); return dict(none, error="engine timeout", stopped=bool(stop_at and time.time() > stop_at))
        err.seek(0); errtxt = err.read().decode("latin1")
    try: d = json.load(open(out))
    except Exception:
        return {"error": "engine crashed (rc %s): %s" % (p.returncode, errtxt[-800:]), "violations": [], "witnesses": [], "functions": []}
    return d
