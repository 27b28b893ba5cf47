"""Verification engine: real C++ sources -> LLVM IR (clang) -> C (ll2c) -> CBMC; plus native replay of counterexamples.

Everything is rebuilt from /repo's working tree on every run, in a scratch directory under /verif/.work that is removed
at the end (only the ll2c binary is kept there, keyed by the hash of its source)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = os.path.join(VERIF, "engine")
HARN = os.path.join(VERIF, "harness")
REPO = os.environ.get("VF_REPO", "/repo")
WORKROOT = os.path.join(VERIF, ".work")
INC = ["-I" + ENGINE, "-I" + HARN] + ["-I" + os.path.join(REPO, d) for d in
       ("zlib", "src", "generated", "src/gdlib", "src/global", "src/rtl")]
UNITS = ["src/gxfile.cpp", "src/gdlib/gmsstrm.cpp", "src/gdlib/gmsobj.cpp", "src/gdlib/utils.cpp",
         "src/gdlib/strutilx.cpp", "src/gdlib/dblutil.cpp", "src/gdlib/strhash.cpp", "src/gdlib/datastorage.cpp",
         "src/gdlib/gmsdata.cpp", "src/rtl/p3utils.cpp", "src/rtl/p3io.cpp", "src/rtl/sysutils_p3.cpp",
         "src/rtl/system_p3.cpp", "src/rtl/p3platform.cpp", "src/rtl/math_p3.cpp"]
CUNITS = ["src/rtl/dtoaLoc.c"]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-DNDEBUG", "-fno-access-control", "-w", "-c", "-emit-llvm"]
JOBS = int(os.environ.get("VF_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class EngineError(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=pre,
                         text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, (out or "") + "\nTIMEOUT"


def ll2c_path():
    src = os.path.join(ENGINE, "ll2c.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(WORKROOT, "bin")
    exe = os.path.join(d, "ll2c-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    rc, flags = sh(["llvm-config-18", "--cxxflags"])
    fl = [f for f in flags.split() if f not in ("-fno-exceptions",)]
    tmp = exe + ".%d" % os.getpid()
    rc, out = sh(["clang++", "-O1", "-fno-rtti", "-w"] + fl + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], 600)
    if rc:
        raise EngineError("cannot build ll2c: " + out[-2000:])
    os.replace(tmp, exe)
    return exe


class Work:
    """Scratch directory with the IR of the real code, and lazily the native objects."""

    def __init__(self, tag):
        self.dir = os.path.join(WORKROOT, "%s-%d" % (tag, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.ll2c = ll2c_path()
        self.lock = threading.Lock()
        self.native = None
        self.native_err = None
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.irfut = None

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def units(self):
        """Every source of the library as it is in the tree now (new files next to the known ones are picked up)."""
        u = [x for x in UNITS if os.path.exists(os.path.join(REPO, x))]
        for d in ("src", "src/gdlib"):
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                r = d + "/" + f
                if f.endswith(".cpp") and r not in u:
                    u.append(r)
        return u

    def build_ir(self):
        def one(u):
            o = os.path.join(self.dir, u.replace("/", "_") + ".bc")
            if u.endswith(".c"):
                cmd = ["clang"] + IRFLAGS[:-2] + ["-c", "-emit-llvm"] + INC + [os.path.join(REPO, u), "-o", o]
                cmd = [c for c in cmd if c != "-fno-access-control"]
            else:
                cmd = ["clang++", "-std=gnu++17"] + IRFLAGS + INC + [os.path.join(REPO, u), "-o", o]
            rc, out = sh(cmd, 300)
            if rc:
                raise EngineError("clang failed on %s: %s" % (u, out[-1500:]))
            return o
        futs = [self.pool.submit(one, u) for u in self.units()]
        futs.append(self.pool.submit(self._strings))
        objs = [f.result() for f in futs]
        self.base = os.path.join(self.dir, "base.bc")
        rc, out = sh(["llvm-link"] + objs + ["-o", self.base], 300)
        if rc:
            raise EngineError("llvm-link: " + out[-1500:])

    def _strings(self):
        o = os.path.join(self.dir, "strings.bc")
        rc, out = sh(["clang++", "-std=gnu++17"] + IRFLAGS + [os.path.join(ENGINE, "strings.cpp"), "-o", o], 300)
        if rc:
            raise EngineError("strings: " + out[-1500:])
        return o

    def build_native(self, san=False):
        """native objects of the real code, for replay"""
        key = "nat_san" if san else "nat"
        with self.lock:
            if self.native is None:
                self.native = {}
            if key in self.native:
                return self.native[key]

            def one(u):
                o = os.path.join(self.dir, key + "_" + u.replace("/", "_") + ".o")
                fl = ["-O1", "-g1", "-w", "-c"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else [])
                if u.endswith(".c"):
                    cmd = ["gcc"] + fl + INC + [os.path.join(REPO, u), "-o", o]
                else:
                    cmd = ["g++", "-std=gnu++17", "-fno-access-control"] + fl + INC + [os.path.join(REPO, u), "-o", o]
                rc, out = sh(cmd, 300)
                if rc:
                    raise EngineError("native build failed on %s: %s" % (u, out[-1500:]))
                return o
            with cf.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(one, self.units() + CUNITS))
            self.native[key] = objs
            return objs


def native_flags(san):
    return ["-O1", "-g1", "-DVF_NATIVE", "-w", "-std=gnu++17", "-fno-access-control"] + \
           (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else [])


class Harness:
    """one harness source file: compiled, linked with the real code and optimised once"""

    def __init__(self, work, fname):
        self.w, self.fname = work, fname
        self.src = os.path.join(HARN, fname)
        self.base = os.path.join(work.dir, fname.replace(".cpp", "").replace("/", "_"))
        txt = open(self.src).read()
        self.replace = re.findall(r"^// VF-REPLACE (.+?) => (\w+)\s*$", txt, re.M)
        self.ginit = " ".join(re.findall(r"^// VF-GLOBALS (.+)$", txt, re.M)).split()
        self.lock = threading.Lock()
        self.done = False
        self.err = None
        self.cs = {}
        self.natives = {}

    def ir(self):
        with self.lock:
            if self.err:
                raise EngineError(self.err)
            if self.done:
                return
            try:
                o = self.base + ".bc"
                rc, out = sh(["clang++", "-std=gnu++17"] + IRFLAGS + INC + [self.src, "-o", o], 300)
                if rc:
                    raise EngineError("harness %s does not compile against the current tree: %s" % (self.fname, out[-1500:]))
                l = self.base + ".l.bc"
                rc, out = sh(["llvm-link", o, self.w.base, "-o", l], 300)
                if rc:
                    raise EngineError("llvm-link: " + out[-1500:])
                m = self.base + ".m.bc"
                rc, out = sh([self.w.ll2c, "--mark", l, m] + [a for a, b in self.replace] + [b for a, b in self.replace] + ["--ginit=" + g for g in self.ginit], 300)
                if rc:
                    raise EngineError("mark: " + out[-1500:])
                a = self.base + ".a.bc"
                rc, out = sh(["opt", "-passes=always-inline,function(sroa,early-cse,simplifycfg,dce)", m, "-o", a], 300)
                if rc:
                    raise EngineError("opt: " + out[-1500:])
                self.final = a
                self.done = True
            except EngineError as e:
                self.err = str(e)
                raise

    def c(self, entry):
        self.ir()
        with self.lock:
            if entry in self.cs:
                if isinstance(self.cs[entry], str) and self.cs[entry].startswith("ERR"):
                    raise EngineError(self.cs[entry])
                return self.cs[entry]
            d = self.base + "." + entry
            os.makedirs(d, exist_ok=True)
            stubs = os.path.join(d, "stubs.txt")
            names = re.findall(r"^[a-z0-9A-Z_]+ F_([A-Za-z0-9_]+)\(", open(os.path.join(ENGINE, "stubs.h")).read(), re.M)
            open(stubs, "w").write("\n".join(names) + "\n")
            cmd = [self.w.ll2c, self.final, os.path.join(d, "out.c"), "--entry", entry, "--stubs", stubs, "--report",
                   os.path.join(d, "rep.txt")]
            for a, b in self.replace:
                cmd += ["--replace", a + "=" + b]
            rc, out = sh(cmd, 300)
            if rc:
                self.cs[entry] = "ERR translator: " + out[-800:]
                raise EngineError(self.cs[entry])
            self.cs[entry] = d
            return d

    def native(self, entry, params, san=False):
        key = (entry, san)
        objs = self.w.build_native(san)
        with self.lock:
            if key in self.natives:
                return self.natives[key]
            exe = self.base + "." + entry + (".san" if san else ".nat")
            comp = "g++"
            rc, out = sh([comp] + native_flags(san) + INC + ["-Dvf_entry=" + entry, self.src, os.path.join(ENGINE, "vf_native.cpp")] + objs +
                         ["-o", exe, "-lz", "-ldl", "-lpthread"], 300)
            if rc:
                raise EngineError("native harness build: " + out[-1500:])
            self.natives[key] = exe
            return exe


class Ob:
    """A proof obligation group: one harness entry with fixed parameters, discharged by one CBMC run."""

    def __init__(self, name, file, entry="vf_harness", params=(), unwind=22, timeout=300, flags=(), defs=(), funcs=(),
                 covers=True, tier="quick", search=6, bounded=None, solver="cadical", unwindset=(), mem=10, checks=False, weight=1, reach=True):
        self.name, self.file, self.entry, self.params = name, file, entry, list(params)
        self.unwind, self.timeout, self.flags, self.defs, self.funcs = unwind, timeout, list(flags), list(defs), list(funcs)
        self.covers, self.tier, self.search, self.bounded = covers, tier, search, bounded
        self.weight = weight
        # reach=False: the obligation starts from an internal state given by an invariant, so a replay of its counterexample on the
        # real function is not by itself a failing input of the library
        self.reach = reach
        self.solver, self.unwindset, self.mem, self.checks = solver, list(unwindset), mem, checks


RES = re.compile(r"^\[(\S+)\] (?:file \S+ )?line (\d+) (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.M)
RES2 = re.compile(r"^\[(\S+)\] (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.M)
SOFT = ("unwinding assertion", "EXTERNAL function", "UNDECIDED", "unreachable code or exception", "recursion unwinding",
        "dereferenced function pointer")


def classify(desc):
    if desc.startswith("COVER "):
        return "cover"
    for s in SOFT:
        if s in desc:
            return "soft"
    return "hard"


def run_ob(work, harnesses, ob):
    """returns dict(status=proved|failed|undecided, ...)"""
    t0 = time.time()
    r = dict(name=ob.name, status="undecided", obligations=0, discharged=0, time=0.0, reason="", failed=[], funcs=[], assumed=[])
    try:
        h = harnesses[ob.file]
        d = h.c(ob.entry)
        tag = re.sub(r"\W", "_", ob.name)
        gb = os.path.join(d, tag + ".gb")
        defs = ["-DVF_P%d=%d" % (i, p) for i, p in enumerate(ob.params)] + ["-D" + x for x in ob.defs]
        if ob.covers:
            defs.append("-DVF_COVERMODE")
        rc, out = sh(["goto-cc", "-I" + ENGINE, "-I" + HARN] + defs + ["--function", "F_" + ob.entry, os.path.join(d, "out.c"), "-o", gb], 300)
        if rc or not os.path.exists(gb):
            raise EngineError("goto-cc: " + out[-1500:])
        cmd = ["cbmc", gb, "--unwind", str(ob.unwind), "--unwinding-assertions", "--object-bits", "11", "--no-standard-checks"]
        if ob.checks:
            cmd += ["--pointer-check", "--bounds-check"]
        if ob.unwindset:
            cmd += ["--unwindset", ",".join(ob.unwindset)]
        if ob.solver in ("cadical", "minisat2"):
            cmd += ["--sat-solver", ob.solver]
        elif ob.solver:
            cmd += ["--" + ob.solver]
        cmd += ob.flags
        r["cmd"] = " ".join(cmd[:1] + ["<goto-binary of %s:%s>" % (ob.file, ob.entry)] + cmd[2:])
        rc, out = sh(cmd, ob.timeout, mem_gb=ob.mem)
        r["solver_s"] = round(time.time() - t0, 2)
        if rc not in (0, 10):
            r["reason"] = "timeout after %ds" % ob.timeout if rc == -9 else "cbmc exit %d: %s" % (rc, out[-400:])
            r["ob"] = ob
            return r
        seen = {}
        for m in RES2.finditer(out):
            desc = re.sub(r"^(file \S+ )?line \d+ ", "", m.group(2))
            seen[m.group(1)] = (desc, m.group(3))
        hard, soft, cov_ok, cov_bad = [], [], 0, []
        for pid, (desc, st) in seen.items():
            k = classify(desc)
            if k == "cover":
                if st == "FAILURE":
                    cov_ok += 1
                else:
                    cov_bad.append(desc)
                continue
            r["obligations"] += 1
            if st == "SUCCESS":
                r["discharged"] += 1
            elif k == "hard":
                hard.append((pid, desc))
            else:
                soft.append((pid, desc))
        r["covers"] = cov_ok
        r["failed"] = hard
        r["soft"] = soft
        r["gb"], r["cbmc"] = gb, cmd
        if hard:
            r["status"] = "failed"
        elif soft:
            r["reason"] = "not decided: " + "; ".join(sorted({s[1] for s in soft}))[:400]
        elif ob.covers and (cov_bad or not cov_ok):
            r["reason"] = "vacuity guard not met: %s" % (cov_bad or "no cover point")
        elif r["obligations"] == 0:
            r["reason"] = "no obligations generated"
        else:
            r["status"] = "proved"
        rep = open(os.path.join(d, "rep.txt")).read().splitlines()
        for l in rep:
            f = l.split("\t")
            if f[0] == "BODY" and len(f) > 3 and "/repo/" in f[3].replace(REPO, "/repo"):
                r["funcs"].append(f[2])
            elif f[0] == "STUB":
                r["assumed"].append("runtime model: " + f[2])
            elif f[0] == "REPLACED":
                r["assumed"].append("contract instead of body: " + f[2])
    except EngineError as e:
        r["reason"] = str(e)[:1500]
    r["time"] = round(time.time() - t0, 2)
    r["ob"] = ob
    return r


def trace_inputs(work, r, pid):
    """values of the nd_*() inputs of the counterexample, in order"""
    cmd = list(r["cbmc"]) + ["--property", pid, "--trace", "--stop-on-fail"]
    rc, out = sh(cmd, r["ob"].timeout, mem_gb=r["ob"].mem)
    vals = []
    for m in re.finditer(r"^  vf_nd(8|16|32|64)=(\S+?)(?:u|ul|ull)? \(([01 ]+)\)\s*$", out, re.M):
        vals.append(int(m.group(3).replace(" ", ""), 2))
    return vals, out


def replay_native(work, harnesses, ob, vals, path, san=False):
    h = harnesses[ob.file]
    exe = h.native(ob.entry, ob.params, san)
    open(path, "w").write("\n".join(str(v) for v in vals) + "\n")
    env = dict(os.environ)
    for i, p in enumerate(ob.params):
        env["VF_P%d" % i] = str(p)
    d = os.path.join(work.dir, "scratch")
    os.makedirs(d, exist_ok=True)
    rc, out = sh([exe, "replay", path], 20, cwd=d, env=env, mem_gb=None if san else 8)
    return rc, out


def search_native(work, harnesses, ob, secs, seed, maxruns=10**9, san=False, k=0):
    h = harnesses[ob.file]
    exe = h.native(ob.entry, ob.params, san)
    env = dict(os.environ)
    for i, p in enumerate(ob.params):
        env["VF_P%d" % i] = str(p)
    env["VF_CUR"] = "cur.txt"
    d = os.path.join(work.dir, "scratch_%s_%d" % (re.sub(r"\W", "_", ob.name), k))
    os.makedirs(d, exist_ok=True)
    rc, out = sh([exe, "search", str(seed), str(secs), str(maxruns)], secs + 60, cwd=d, env=env, mem_gb=None if san else 8)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


class Api:
    """A bounded stand-in: seeded random histories run natively against the real library; never counted as proved."""

    def __init__(self, name, file, entry, params=(), runs=2000, secs=25, par=2, san=False, tier="quick", bounded=""):
        self.name, self.file, self.entry, self.params, self.runs, self.secs = name, file, entry, list(params), runs, secs
        self.par, self.san, self.tier, self.bounded = par, san, tier, bounded
