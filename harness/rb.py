"""Common machinery: building the library from /repo's working tree, running the driver, running TLC."""
import hashlib, inspect, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RB_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
NCPU = min(8, os.cpu_count() or 8)
SKIP = {".git", "build", "doc", "examples", "tests"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def tree_files(repo):
    out = []
    for d, dirs, files in os.walk(repo):
        if d == repo:
            dirs[:] = [x for x in dirs if x not in (".git", "build")]
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(".pyc"):
                continue
            out.append(os.path.relpath(os.path.join(d, f), repo))
    return [f for f in out if f != "scripts/getter.json" and not f.startswith("doc/") and not f.startswith("examples/")
            and not re.match(r"tests/.*\.(c|h|suite)$", f) and not f.startswith("tests/checks/data")]


def tree_hash(repo, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in tree_files(repo):
        p = os.path.join(repo, f)
        h.update(f.encode() + b"\0")
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        else:
            with open(p, "rb") as fd:
                h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


CONFIGS = {
    # name: (make variables, environment)
    "std": ({}, {}),
    "sse": ({"OPTFLAGS": "-O3 -fPIC -DreproBLAS_no__AVX__"}, {}),
    "sisd": ({"OPTFLAGS": "-O3 -fPIC -DreproBLAS_no__AVX__ -DreproBLAS_no__SSE2__"}, {}),
    "args": ({"ARGS": "$(TOP)/src/default_args.json"}, {}),
    "O1": ({"OPTFLAGS": "-O1 -fPIC"}, {}),
    "clang": ({"CC": "clang"}, {}),
    # without Python: the sources as they were generated for the release
    "nopy": ({"PYTHON": ""}, {}),
    "asan": ({"OPTFLAGS": "-O1 -g -fPIC -fsanitize=address -fno-omit-frame-pointer", "LDFLAGS": "-fsanitize=address"}, {}),
    # tuning parameters of our own choosing, within the ranges src/params.json allows
    "tiny": ({"ARGS": "$(TOP)/src/chosen_args.json"}, {}),
    "thin": ({"ARGS": "$(TOP)/src/chosen_args.json"}, {}),
    "rand1": ({"ARGS": "$(TOP)/src/chosen_args.json"}, {}),
    "rand2": ({"ARGS": "$(TOP)/src/chosen_args.json"}, {}),
    "rand3": ({"ARGS": "$(TOP)/src/chosen_args.json", "OPTFLAGS": "-O3 -fPIC -DreproBLAS_no__AVX__"}, {}),
    "rand4": ({"ARGS": "$(TOP)/src/chosen_args.json", "OPTFLAGS": "-O2 -fPIC -DreproBLAS_no__AVX__ -DreproBLAS_no__SSE2__"}, {}),
}


def chosen_args(name, params):
    """values for the tuning parameters: small blocks ("tiny"), or drawn from their whole range"""
    r = random.Random(name)
    out = {}
    for k, p in sorted(params["parameters"].items()):
        lo, hi = p.get("minimum"), p.get("maximum")
        if p["flavor"] == "boolean":
            v = r.random() < .5 if name not in ("tiny", "thin") else k.endswith("_fold_3")
        elif name in ("tiny", "thin"):
            v = lo
        elif "unroll" in k and r.random() < .7:
            v = r.choice([lo, lo, min(hi, lo + p.get("step", 1)), min(hi, lo + 2 * p.get("step", 1))])
        elif "pipe" in k and r.random() < .7:
            v = r.choice([lo, lo, min(hi, 2 * lo)])
        elif p["flavor"] == "poweroftwo":
            v = lo * 2 ** r.randrange(0, (hi // lo).bit_length())
        else:
            v = r.randrange(lo, hi + 1, p.get("step", 1))
        if "_block_size_" in k and (name in ("tiny", "thin") or r.random() < .5):
            # several blocks in each direction already for small sizes
            b = k.split("_block_size_")[1]
            v = lo if "N_block" in b or b.startswith("XY") else min(hi, max(lo, r.choice([2, 4, 8, 16])))
            if name == "thin" and b in ("Y_BLOCK", "YT_BLOCK"):
                # the other direction gets what is left
                v = max(1, params["parameters"][k.split("_block_size_")[0] + "_block_size_X" + b]["minimum"] // r.choice([2, 4, 8]))
        out[k] = v
    return out



def build(config="std", mpi=False, repo=None):
    """Build a shared library from the working tree (in a scratch directory); returns (lib, mpilib)."""
    repo = repo or REPO
    mk, _ = CONFIGS[config]
    guard = os.path.join(VERIF, "harness", "guard.c")
    how = inspect.getsource(chosen_args) if "chosen_args" in mk.get("ARGS", "") else ""
    sched = os.path.join(VERIF, "harness", "sched.c")
    key = tree_hash(repo, "2" + config + repr(mk) + how + str(mpi) + open(guard).read() + open(sched).read())
    dest = os.path.join(CACHE, "build", key)
    lib, mlib = os.path.join(dest, "libreproblas.so"), os.path.join(dest, "libbinnedmpi.so")
    if os.path.exists(os.path.join(dest, "ok")):
        return lib, (mlib if mpi else None)
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="rb-build-")
    try:
        src = os.path.join(tmp, "r")
        for f in tree_files(repo):
            d = os.path.join(src, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(repo, f), d, follow_symlinks=False)
        for stub in ("doc", "tests", "examples"):
            # makefiles refer to these directories
            for d, dirs, files in os.walk(os.path.join(repo, stub)):
                for f in files:
                    if f in ("Rules.mk", "Makefile", "__init__.py"):
                        q = os.path.join(src, os.path.relpath(os.path.join(d, f), repo))
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        shutil.copy2(os.path.join(d, f), q)
        if "chosen_args" in mk.get("ARGS", ""):
            with open(os.path.join(src, "src/params.json")) as fd:
                a = chosen_args(config, json.load(fd))
            with open(os.path.join(src, "src/chosen_args.json"), "w") as fd:
                json.dump(a, fd, indent=1)
        env = dict(os.environ)
        for v in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "RB_TRACE"):
            env.pop(v, None)
        env.update(PYTHON="/opt/venv/bin/python", MTARGET_ARCH="x86-64-v3", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", LANG="C.UTF-8", TERM="dumb")
        out = os.path.join(src, "build/release/Linux-x86_64")
        vars_ = {"OPTFLAGS": "-O3 -fPIC", "VERBOSE": "true"}
        vars_.update(mk)
        mv = ["%s=%s" % kv for kv in vars_.items()]

        def sh(cmd, **kw):
            r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
            if r.returncode:
                raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
            return r.stdout

        sh(["make", "-j%d" % NCPU] + mv + [out + "/scripts/obj/getter"])
        g = subprocess.run(["env", "ASAN_OPTIONS=detect_leaks=0", out + "/scripts/obj/getter"], stdout=subprocess.PIPE)
        with open(os.path.join(src, "scripts/getter.json"), "wb") as fd:
            fd.write(g.stdout)
        targets = [out + "/src/reproBLAS/obj/libreproblas.a"]
        if mpi:
            fl = subprocess.run(["mpicc", "--showme:compile"], stdout=subprocess.PIPE).stdout.decode().strip()
            mv += ["BUILD_MPI=true", "MPICFLAGS=" + fl]
            targets.append(out + "/src/binnedMPI/obj/libbinnedmpi.a")
        sh(["make", "-j%d" % NCPU] + mv + targets)
        os.makedirs(dest, exist_ok=True)
        wrap = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign")]
        go = os.path.join(tmp, "guard.o")
        sh(["cc", "-O2", "-fPIC", "-w", "-mno-red-zone", "-c", "-o", go, guard])
        san = ["-fsanitize=address"] if config == "asan" else []
        extra = [go]
        if san:
            open(os.path.join(dest, "asan"), "w").close()
        else:
            # (the sanitizer's own guards lie among the library's variables, which sched.c saves and restores)
            extra.append(os.path.join(tmp, "sched.o"))
            sh(["cc", "-O2", "-fPIC", "-w", "-pthread", "-c", "-o", extra[1], sched])
        sh(["cc", "-shared", "-pthread", "-Wl,-z,now,-z,relro", "-o", lib] + extra + san + wrap + ["-Wl,--whole-archive", targets[0], "-Wl,--no-whole-archive", "-lm"])
        if mpi:
            # the MPI archive carries copies of the binned library's objects: only its own are wanted
            ex = os.path.join(tmp, "x")
            os.makedirs(ex)
            subprocess.run(["ar", "x", targets[1]], cwd=ex, check=True)
            objs = []
            for o in sorted(os.listdir(ex)):
                syms = subprocess.run(["nm", "-g", "--defined-only", os.path.join(ex, o)], stdout=subprocess.PIPE).stdout.decode()
                if " binnedMPI_" in syms:
                    objs.append(os.path.join(ex, o))
            sh(["mpicc", "-shared", "-o", mlib] + objs + [lib])
        open(os.path.join(dest, "ok"), "w").close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune()
    log("[build] %s: %.1f s" % (config, time.time() - t0))
    return lib, (mlib if mpi else None)


def prune(keep=24):
    d = os.path.join(CACHE, "build")
    try:
        es = sorted(os.listdir(d), key=lambda e: os.path.getmtime(os.path.join(d, e)))
    except FileNotFoundError:
        return
    for e in es[:-keep]:
        shutil.rmtree(os.path.join(d, e), ignore_errors=True)


def java_classes():
    src = os.path.join(VERIF, "java", "rbl")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(open(os.path.join(src, f), "rb").read())
    dest = os.path.join(CACHE, "java-" + h.hexdigest()[:16])
    if not os.path.exists(os.path.join(dest, "ok")):
        tmp = tempfile.mkdtemp(prefix="rb-java-")
        subprocess.run(["javac", "-d", tmp, "-cp", TLA + "/tla2tools.jar"] +
                       [os.path.join(src, f) for f in sorted(os.listdir(src))], check=True)
        os.makedirs(CACHE, exist_ok=True)
        try:
            shutil.copytree(tmp, dest, dirs_exist_ok=True)
            open(os.path.join(dest, "ok"), "w").close()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dest


# ------------------------------------------------------------------- driver
def run_driver(work, cases, lib, mpilib=None, tag="t", timeout=300, stall=60, prefix=()):
    """Execute cases on the library.  Returns (list of trace lines by case order or None, crashes)."""
    n = len(cases)
    nproc = min(NCPU, max(1, n))
    order = sorted(range(n), key=lambda i: -len(cases[i]["_s"]) if "_s" in cases[i] else 0)
    chunks = [[] for _ in range(nproc)]
    wt = [0] * nproc
    enc = {}
    for i in range(n):
        enc[i] = json.dumps(cases[i], separators=(",", ":"))
    for i in sorted(range(n), key=lambda i: -len(enc[i])):
        j = wt.index(min(wt))
        chunks[j].append(i)
        wt[j] += len(enc[i]) + 200
    lines = [None] * n
    crashes = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.update(OMPI_MCA_btl="self", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    if os.path.exists(os.path.join(os.path.dirname(lib), "asan")):
        so = subprocess.run(["cc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
        env.update(LD_PRELOAD=os.path.realpath(so), ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=0:quarantine_size_mb=16:verify_asan_link_order=0:exitcode=77")
    t_end = time.time() + timeout
    pend = [list(c) for c in chunks]
    procs = {}
    seen = {}               # where each of them was, and since when

    def start(j):
        seen.pop(j, None)
        base = os.path.join(work, "%s-%d" % (tag, j))
        with open(base + ".plan", "w") as fd:
            for i in pend[j]:
                fd.write(enc[i] + "\n")
        cmd = list(prefix) + [sys.executable, os.path.join(VERIF, "harness", "driver.py"), lib, base + ".plan",
                              base + ".trace", base + ".prog"]
        if mpilib:
            cmd.append(mpilib)
        procs[j] = (subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL,
                                     stderr=open(base + ".err", "w"), cwd=work), base)

    for j in range(nproc):
        if pend[j]:
            start(j)
    while procs:
        for j in list(procs):
            p, base = procs[j]
            try:
                rc = p.wait(timeout=0.05)
            except subprocess.TimeoutExpired:
                try:
                    at = open(base + ".prog").read()
                except OSError:
                    at = ""
                if at != seen.get(j, (None, 0))[0]:
                    seen[j] = (at, time.time())
                if time.time() < t_end and time.time() - seen[j][1] < stall:
                    continue
                p.kill()
                p.wait()
                rc = "timeout"
            del procs[j]
            got = []
            try:
                got = open(base + ".trace").read().split("\n")[:-1]
            except FileNotFoundError:
                pass
            for i, l in zip(pend[j], got):
                lines[i] = l
            k = len(got)
            if rc == 0 and k == len(pend[j]):
                pend[j] = []
                continue
            if k >= len(pend[j]):
                # died after the last case (at exit): harmless to the results
                pend[j] = []
                continue
            err = open(base + ".err").read()[-8000:]
            try:
                ci, ei = map(int, open(base + ".prog").read().split()[:2])
            except Exception:
                ci, ei = k, -1
            crashes.append({"case": pend[j][k], "event": ei, "rc": rc, "stderr": err})
            pend[j] = pend[j][k + 1:]
            if pend[j] and rc != "timeout" and len(crashes) < 40:
                start(j)
    return lines, crashes


def expand(cases, lines):
    """a crowd of cases is recorded as each of them, and what came of running them together"""
    cs, ls = [], []
    for c, l in zip(cases, lines):
        if "crowd" not in c:
            cs.append(c)
            ls.append(l)
            continue
        subs = c["crowd"] + [c]
        parts = [json.dumps(x, separators=(",", ":")) for x in json.loads(l)["multi"]] if l else [None] * len(subs)
        for s, x in zip(subs, parts):
            cs.append(s if s is c else dict(s, _in=c))
            ls.append(x)
    return cs, ls


# ---------------------------------------------------------------------- TLC
def tlc(args, cwd, env=None, timeout=600, heap="6g", override=True, workers=None):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="rb-tlc-")
    cp = [TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]
    props = []
    if override:
        cp.append(java_classes())
        props = ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:rbl.Overrides"]
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC] + props + \
          ["-cp", ":".join(cp), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or NCPU)] + args
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace"), "timeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def states(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(work, lines, tag="trace", timeout=700, module="Trace"):
    """Check recorded cases against the specification.
    Returns (dict case index -> (event index, op, reason)), transitions, error text or None."""
    path = os.path.join(work, tag + ".ndjson")
    idx = [i for i, l in enumerate(lines) if l]
    with open(path, "w") as fd:
        for i in idx:
            fd.write(lines[i] + "\n")
    if not idx:
        return {}, set(), 0, 0, None
    rc, out, wall = tlc(["-config", "Trace.cfg", "Trace.tla"], SPEC, env={"RB_TRACE": path}, timeout=timeout)
    bad, ok = {}, set()
    for m in re.finditer(r'"@@BAD (\d+) (\d+) (\S+) (.*?)"', out):
        bad[idx[int(m.group(1)) - 1]] = (int(m.group(2)) - 1, m.group(3), m.group(4))
    for m in re.finditer(r'"@@OK (\d+)"', out):
        ok.add(idx[int(m.group(1)) - 1])
    gen, dis = states(out)
    err = None
    if rc != 0:
        keep = [l for l in out.split("\n") if "@@" not in l]
        err = "TLC exit %s\n%s" % (rc, "\n".join(keep)[-3000:])
    return bad, ok, gen, dis, err
