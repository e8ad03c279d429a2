"""Shared machinery: building /repo, running cases under MPI, evidence, verdicts."""
import os, sys, json, time, shutil, subprocess, tempfile, threading, random, hashlib, signal, fcntl, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = REPO + "/build"
MPIRUN = "/opt/vp/bin/mpirun-test"
NCORES = os.cpu_count() or 8


class HarnessError(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("OMPI_", "PMIX_")) and k not in ("LD_LIBRARY_PATH", "WAFLOCK", "LIBRARIES", "ARCH")}
    e.update(CXX="mpic++", ES_INT_WIDTH="32", CPATH="/usr/include/mkl", LIBRARY_PATH="/opt/vp/lib",
             PYTHONDONTWRITEBYTECODE="1", OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", GIT_OPTIONAL_LOCKS="0")
    return e


def sh(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True,
                          timeout=timeout, env=env, cwd=cwd, errors="replace")


def build_repo():
    """Incremental build of /repo's working tree (content-hash based, so it sees every change)."""
    t = time.time()
    with open("/tmp/.vf_build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["bash", "/opt/vp/build.sh"], timeout=880)
    if r.returncode:
        raise HarnessError("build of /repo failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
    return time.time() - t


ES_LIBS = None


def build_harness(name, extra=(), opt="-O1"):
    """Compile /verif/harness/<name>.cpp against /repo's current headers and freshly built libraries."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    outd = tempfile.mkdtemp(prefix="vf_h_")
    out = os.path.join(outd, name)
    libs = sorted(f for f in os.listdir(BUILD) if f.startswith("lib") and f.endswith(".so"))
    ll = ["-l" + f[3:-3] for f in libs if not f.startswith("libeswprecicedummy")]
    flags = waf_flags()
    cmd = ["mpic++", "-std=c++17", "-fopenmp", opt, "-g", "-w"] + flags + list(extra) + \
          ["-I" + REPO + "/src", "-I" + REPO + "/include", src, "-o", out,
           "-L" + BUILD, "-Wl,-rpath," + BUILD, "-Wl,--no-as-needed"] + ll + ["-Wl,--as-needed", "-lpthread", "-ldl"]
    r = sh(cmd, timeout=600, env=base_env())
    if r.returncode:
        shutil.rmtree(outd, ignore_errors=True)
        raise HarnessError("harness %s does not compile:\n%s" % (name, r.stderr[-6000:]))
    _tmpdirs.append(outd)
    return out


_tmpdirs = []


def waf_flags():
    """The preprocessor defines and machine flags the library itself was compiled with."""
    txt = open(BUILD + "/c4che/_cache.py").read()
    ns = {}
    exec(txt, ns)
    d = ["-D" + x for x in ns.get("DEFINES", []) + ns.get("DEFINES_SIMD", [])]
    for f in ns.get("CXXFLAGS", []):
        if f.startswith("-m"):
            d.append(f)
    return d


class Slots:
    """Weighted semaphore: a case with R ranks x T threads takes R*T slots."""

    def __init__(self, n):
        self.n = n
        self.free = n
        self.cv = threading.Condition()

    def acquire(self, w):
        w = min(w, self.n)
        with self.cv:
            while self.free < w:
                self.cv.wait()
            self.free -= w
        return w

    def release(self, w):
        with self.cv:
            self.free += w
            self.cv.notify_all()


SLOTS = Slots(int(os.environ.get("VF_SLOTS", "12")))


class Result:
    def __init__(self, rc, out, err, dir, wall, timed_out, cmd):
        self.rc, self.out, self.err, self.dir, self.wall, self.timed_out, self.cmd = rc, out, err, dir, wall, timed_out, cmd

    @property
    def ok(self):
        return self.rc == 0 and not self.timed_out and "ESPRESO EXITED WITH AN ERROR" not in self.out + self.err

    def errmsg(self):
        """The lines that say what went wrong."""
        L = [re.sub(r"\x1b\[[0-9;]*m", "", l).strip() for l in (self.err + "\n" + self.out).split("\n")]
        key = [l for l in L if re.search(r"error|rank +\d+, thread|signal|sanitizer|assert|terminate|reached|denied|unknown", l, re.I)
               and not re.match(r"#\d+ |Primary job|mpirun|ESPRESO RUN", l)]
        t = " | ".join(dict.fromkeys(key)) or " | ".join(l for l in L if l)[-300:]
        return ("timeout " if self.timed_out else "rc=%s " % self.rc) + t[:400]


def run_mpi(dir, np, cmd, threads=1, timeout=90, env=None, weight=None):
    """Run cmd (list) with np ranks in directory dir. np=0: run without mpirun."""
    e = base_env()
    session = tempfile.mkdtemp(dir=_tmpbase())  # mpiruns of one process must not share it
    e.update(OMP_NUM_THREADS=str(threads), MKL_NUM_THREADS="1", LD_LIBRARY_PATH=BUILD, VP_CASE_TIMEOUT=str(timeout),
             MKL_DYNAMIC="FALSE", OMP_DYNAMIC="FALSE", OMPI_MCA_orte_tmpdir_base=session, PYTHONDONTWRITEBYTECODE="1")
    if env:
        e.update(env)
    full = ([MPIRUN, "-n", str(np)] if np else []) + list(cmd)
    w = SLOTS.acquire(weight or max(1, max(np, 1) * threads))
    t = time.time()
    try:
        with open(os.path.join(dir, "stdout.txt"), "wb") as fo, open(os.path.join(dir, "stderr.txt"), "wb") as fe:
            p = subprocess.Popen(full, cwd=dir, env=e, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, start_new_session=True)
            to = False
            try:
                rc = p.wait(timeout + 20)
            except subprocess.TimeoutExpired:
                to = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                rc = p.wait()
    finally:
        SLOTS.release(w)
        shutil.rmtree(session, ignore_errors=True)
    out = open(os.path.join(dir, "stdout.txt"), errors="replace").read()
    err = open(os.path.join(dir, "stderr.txt"), errors="replace").read()
    if "timed out" in err and rc in (124, 137):
        to = True
    return Result(rc, out, err, dir, time.time() - t, to, full)


_tb = None
_tblock = threading.Lock()


def _tmpbase():
    global _tb
    with _tblock: return _tmpbase_()


def _tmpbase_():
    global _tb
    if _tb is None:
        _tb = tempfile.mkdtemp(prefix="vf_ompi_")
        _tmpdirs.append(_tb)
    return _tb


def ecf(d, ind=0):
    """Nested dict/list -> ECF text.  Values: str/number; None -> 'NAME;'."""
    s = ""
    pad = "  " * ind
    for k, v in (d.items() if isinstance(d, dict) else d):
        if isinstance(v, dict):
            s += "%s%s {\n%s%s}\n" % (pad, k, ecf(v, ind + 1), pad)
        elif v is None:
            s += "%s%s;\n" % (pad, k)
        else:
            if isinstance(v, bool):
                v = "TRUE" if v else "FALSE"
            elif isinstance(v, float):
                v = repr(v)
            s += "%s%s   %s;\n" % (pad, k, v)
    return s


CRASH = re.compile(r"Segmentation fault|SIGSEGV|signal 11|SIGABRT|Aborted|signal 6|bad_alloc|terminate called|double free|corrupted|"
                   r"AddressSanitizer|runtime error:|Floating point exception|INTERNAL FAILURE")


def crashed(r):
    """The process died from its own memory/abort error (as opposed to a refusal or an MPI start-up failure)."""
    return r.rc != 0 and not r.timed_out and bool(CRASH.search(r.out + r.err))


def run_twice(fn):
    """fn() -> Result.  A refusal or a timeout has to repeat before it is believed; a crash is evidence by itself."""
    r = fn()
    if r.ok or crashed(r):
        return r
    return fn()


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%s" % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.lock = threading.Lock()
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = {}
        self.inconclusive = []
        self.rule = ""
        self.assumptions = []
        self.findings = self._load_findings()
        self.seen_findings = set()
        self.replay_root = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(self.replay_root, ignore_errors=True)
        self._n = 0

    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        return q if self.tier == "quick" else t

    def _load_findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        return {f["key"]: f for f in json.load(open(p))["findings"] if f["property"] == self.pid and f.get("status", "open") == "open"}

    def casedir(self, name=None):
        with self.lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.scratch, "%04d%s" % (n, "_" + name if name else ""))
        os.makedirs(d)
        return d

    def count(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.counters[k] = self.counters.get(k, 0) + v

    def case(self, key, nontrivial=True, sample=None):
        """Register one evaluated case."""
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.distinct.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str))
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def inconcl(self, msg):
        with self.lock:
            self.inconclusive.append(msg)

    def violate(self, key, msg, dir=None, extra=None):
        """key identifies the violated fact + input class (matched with known findings)."""
        with self.lock:
            if key in self.findings:
                self.seen_findings.add(key)
                return
            if key in self.violations:
                self.violations[key]["count"] += 1
                return
            n = len(self.violations)
            rp = os.path.join(self.replay_root, "%02d" % n)
            self.violations[key] = {"msg": msg, "replay": rp, "count": 1}
            if n < 12:
                os.makedirs(rp, exist_ok=True)
                with open(os.path.join(rp, "VIOLATION.txt"), "w") as f:
                    f.write("property %s\nkey %s\n%s\nseed %d tier %s\n" % (self.pid, key, msg, self.seed, self.tier))
                    if extra:
                        f.write(str(extra))
                if dir and os.path.isdir(dir):
                    try:
                        subprocess.run(["cp", "-a", dir, os.path.join(rp, "case")], timeout=60)
                        sz = int(sh(["du", "-sm", os.path.join(rp, "case")]).stdout.split()[0])
                        if sz > 40:
                            shutil.rmtree(os.path.join(rp, "case"), ignore_errors=True)
                    except Exception:
                        pass
        print("  violated: %s: %s" % (key, msg), flush=True)

    def finish(self):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["none"], "observed": self.counters, "inconclusive": self.inconclusive[:20]}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, f in sorted(self.findings.items()):
            if k in self.seen_findings: print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        print("%s %s seed=%d: %d cases, %d distinct, %d violations, %d inconclusive, %.1f s; observed %s" % (
            self.pid, self.tier, self.seed, self.evals, len(self.distinct), len(self.violations), len(self.inconclusive),
            time.time() - self.t0, json.dumps(self.counters)))
        for m in self.inconclusive[:5]:
            print("  inconclusive:", m)
        if self.violations:
            for k, v in self.violations.items():
                print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            return 1
        if self.evals == 0:
            print("nothing observed")
            return 2
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        for d in _tmpdirs:
            shutil.rmtree(d, ignore_errors=True)

    def pmap(self, fn, items, workers=12):
        """Run fn over items concurrently; harness exceptions propagate."""
        res = []
        with ThreadPoolExecutor(workers) as ex:
            for r in ex.map(fn, items):
                res.append(r)
        return res


def main(pid, fn, need_build=True):
    ck = Check(pid)
    rc = 2
    try:
        if need_build and not os.environ.get("VF_NOBUILD"):
            ck.counters["build_s"] = round(build_repo(), 1)
        fn(ck)
        rc = ck.finish()
    except HarnessError as e:
        print("HARNESS ERROR:", e)
        if ck.violations:
            rc = ck.finish()
    except Exception:
        import traceback
        traceback.print_exc()
        if ck.violations:
            rc = ck.finish()
    finally:
        if not os.environ.get("VF_KEEP"):
            ck.cleanup()
        else:
            print("kept", ck.scratch)
    sys.exit(rc)
