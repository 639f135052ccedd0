"""Build / run / TLC plumbing shared by all checks."""
import hashlib, json, math, os, re, shutil, subprocess, sys, tempfile, time, glob, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 8

MPIENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
              OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated",
              OMPI_MCA_oob_tcp_if_include="lo")
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi"
CXXFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-fPIC", "-w", "-I%s/include" % REPO, "-I%s/src" % REPO,
            "-I%s/harness" % VERIF, "-isystem", "/usr/include/trilinos",
            "-isystem", OMPI + "/include", "-isystem", OMPI + "/include/openmpi",
            "-isystem", "/usr/include/x86_64-linux-gnu/openblas-pthread"]
LIBS = ["-ltrilinos_kokkosalgorithms", "-ltrilinos_kokkoscontainers", "-ltrilinos_kokkoscore",
        "-lopenblas", "-llapacke", "-L" + OMPI + "/lib", "-lmpi_cxx", "-lmpi", "-lpthread"]


class ToolError(Exception):
    """the check itself could not do its work (exit 2)"""


class BuildError(ToolError):
    pass


class Hang(Exception):
    """several runs of the real code did not come to an end"""
    def __init__(self, scenarios, nranks, env):
        self.scenarios, self.nranks, self.env = scenarios, nranks, env


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def _cc(src, obj, flags):
    tmp = "%s.tmp%d" % (obj, os.getpid())
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compilation of %s failed:\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, obj)


def lib_sources():
    """the library's own sources, as its build file lists them"""
    r = []
    try:
        with open(REPO + "/src/CMakeLists.txt") as f:
            txt = re.sub(r"#.*", "", f.read())
        r = [REPO + "/src/" + x for x in re.findall(r"[\w./-]+\.cpp", txt)]
        r = [x for x in dict.fromkeys(r) if os.path.exists(x)]
    except OSError:
        pass
    return r or [REPO + "/src/nlcglib.cpp", REPO + "/src/la/cusolver.cpp", REPO + "/src/gpu/acc.cpp",
                 REPO + "/src/la/magma.cpp"]


def build(name, harness, with_lib=True, flags=(), libs=(), optional=()):
    """Build executable `name` from harness sources (+ the library's sources), cached by content.
    Optional sources use internal headers of the library: one that does not compile is left out."""
    os.makedirs(BUILD, exist_ok=True)
    fl = CXXFLAGS + list(flags)
    exe_h = tree_hash([REPO + "/src", REPO + "/include"] + [os.path.join(VERIF, "harness")],
                      name + " ".join(fl) + " ".join(libs))
    exe = os.path.join(BUILD, "%s-%s" % (name, exe_h))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    libh = tree_hash([REPO + "/src", REPO + "/include"], " ".join(fl))
    jobs, objs = [], []
    if with_lib:
        for s in lib_sources():
            if not os.path.exists(s):
                continue
            o = os.path.join(BUILD, "lib-%s-%s.o" % (libh, os.path.basename(s)))
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))
    for s in harness:
        o = os.path.join(BUILD, "h-%s-%s.o" % (exe_h, os.path.basename(s)))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.join(VERIF, "harness", s), o))
    opt = []
    for s in optional:
        o = os.path.join(BUILD, "h-%s-%s.o" % (exe_h, os.path.basename(s)))
        opt.append((os.path.join(VERIF, "harness", s), o))
    with ThreadPoolExecutor(NCPU) as ex:
        fo = [(ex.submit(_cc, s, o, fl), o) for s, o in opt]
        for f in [ex.submit(_cc, s, o, fl) for s, o in jobs]:
            f.result()
        for f, o in fo:
            try:
                f.result()
                objs.append(o)
            except BuildError as ex_:
                print("note: left out of the check (internal interface changed): %s" % str(ex_).splitlines()[0])
    if optional:
        libs = list(libs) + ["-Wl,--allow-multiple-definition"]
    tmp = "%s.tmp%d" % (exe, os.getpid())
    r = subprocess.run(["g++"] + objs + ["-o", tmp] + LIBS + list(libs), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link of %s failed:\n%s" % (name, r.stderr[-3000:]))
    os.replace(tmp, exe)
    _prune()
    return exe


def _prune(keep=40):
    fs = sorted(glob.glob(BUILD + "/*"), key=os.path.getmtime)
    for f in fs[:-keep]:
        try:
            os.remove(f)
        except OSError:
            pass


# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="nlcgv-")

    def sub(self, n):
        d = os.path.join(self.dir, n)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        if self.dir.startswith(tempfile.gettempdir() + "/nlcgv-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def run_env(extra=None):
    e = dict(os.environ)
    e.update(MPIENV)
    e["TMPDIR"] = tempfile.gettempdir()
    e.pop("NLCGLIB_DISABLE_NEWTON_EFERMI", None)
    if extra:
        e.update(extra)
    return e


HANGS = 3


def _run_batch(exe, batch, outdir, nranks, env, tmo, hung=None):
    """run a batch; a scenario on which the process dies is recorded as abnormal and skipped"""
    todo = list(batch)
    hung = [] if hung is None else hung
    starts = 0
    while todo:
        if len(hung) >= HANGS:
            return
        fn = os.path.join(outdir, "b-%s.json" % todo[0]["id"])
        with open(fn, "w") as f:
            json.dump(todo, f)
        cmd = [exe, fn, outdir]
        if nranks > 1:
            cmd = ["mpirun", "-n", str(nranks)] + cmd
        # a session directory of its own: Open MPI processes that start and stop at the same time
        # otherwise remove the shared one under each other's feet
        own = tempfile.mkdtemp(prefix="nlcgv-m")
        p = subprocess.Popen(cmd, env=dict(env, TMPDIR=own, OMPI_MCA_orte_tmpdir_base=own), stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=tmo + 3 * len(todo))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            _, err = p.communicate()
            rc = -9
        shutil.rmtree(own, ignore_errors=True)
        done = 0
        for s in todo:
            tr = os.path.join(outdir, "%s.r0.ndjson" % s["id"])
            ok = os.path.exists(tr)
            if ok:
                with open(tr) as f:
                    txt = f.read()
                ok = '"e":"end"' in txt or '"e":"harness-error"' in txt
            if not ok:
                break
            done += 1
        if done == len(todo):
            return
        s = todo[done]
        tr = os.path.join(outdir, "%s.r0.ndjson" % s["id"])
        if not os.path.exists(tr):
            if done == 0:
                starts += 1
                if starts < 5:
                    time.sleep(0.5 * starts)
                    continue
                raise ToolError("runner did not start (rc=%s): %s" % (rc, err.decode(errors="replace")[-800:]))
            # died between scenarios: retry the rest
        else:
            with open(tr, "a") as f:
                f.write(json.dumps({"e": "abnormal", "rc": rc, "err": err.decode(errors="replace")[-400:]}) + "\n")
            if rc == -9 or any(e["e"] == "timeout" for r in range(nranks)
                               for e in load_trace(os.path.join(outdir, "%s.r%d.ndjson" % (s["id"], r)))):
                hung.append(s)
            done += 1
        todo = todo[done:]


def run_scenarios(exe, scenarios, outdir, nranks=1, env=None, par=None, tmo=120):
    """Run scenarios (list of dicts with unique id); returns {id: {rank: [events]}}"""
    os.makedirs(outdir, exist_ok=True)
    ids = [s["id"] for s in scenarios]
    assert len(set(ids)) == len(ids), "duplicate scenario ids"
    par = par or max(1, NCPU // nranks)
    n = max(1, min(par, len(scenarios)))
    batches = [scenarios[i::n] for i in range(n)]
    e = run_env(env)
    hung = []
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(_run_batch, exe, b, outdir, nranks, e, tmo, hung) for b in batches if b]
        for f in fs:
            f.result()
    if len(hung) >= HANGS:
        raise Hang(hung, nranks, env)
    res = {}
    for s in scenarios:
        res[s["id"]] = {r: load_trace(os.path.join(outdir, "%s.r%d.ndjson" % (s["id"], r))) for r in range(nranks)}
    return res


def load_trace(fn):
    out = []
    if not os.path.exists(fn):
        return out
    with open(fn) as f:
        for ln in f:
            ln = ln.strip()
            if not ln:
                continue
            try:
                out.append(json.loads(ln))
            except ValueError:
                out.append({"e": "garbled"})
    return out


def fl(x):
    """doubles are logged as strings"""
    return float(x)


# ---------------------------------------------------------------------- TLC
def tlc(spec_dir, module, cfg_text, workdir, workers=1, extra=(), timeout=600, mem="2g", files=(), deadlock=False):
    """Run TLC on spec module with generated cfg in a private copy; returns dict(rc,out,states,distinct,...)"""
    os.makedirs(workdir, exist_ok=True)
    for f in glob.glob(os.path.join(spec_dir, "*.tla")):
        shutil.copy(f, workdir)
    for f in files:
        shutil.copy(f, workdir)
    with open(os.path.join(workdir, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    cmd = ["tlc", "-config", module + ".cfg", "-metadir", os.path.join(workdir, "states"), "-noGenerateSpecTE",
           "-workers", str(workers)] + list(extra)
    if not deadlock:
        cmd.append("-deadlock")
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss16m -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=%d -Djava.io.tmpdir=%s" % (mem, 4, workdir)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        rc = -9
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return dict(rc=rc, out=out, gen=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                depth=int(d.group(1)) if d else 0, wall=time.time() - t0,
                ok=(rc == 0 and "No error has been found" in out or rc == 0 and "Finished in" in out))
