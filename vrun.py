#!/usr/bin/env python3
"""Runs the checks of one property.

    vrun.py PROPERTY [--tier quick|thorough]     decide the property on /repo's working tree
    vrun.py --replay DIR                         re-run a reported counterexample
    vrun.py --setup                              build the symbolic executor

Every run lowers /repo's current sources to LLVM IR, executes the harnesses of
the property on that IR with symbolic inputs, and hands the assertions to an SMT
solver.  A counterexample is replayed on the natively compiled code before it is
reported.  See DESIGN.md.
"""
import argparse, contextlib, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = os.path.join(REPO, "code/cpp")
NPROC = os.cpu_count() or 4
IRFLAGS = ("-std=c++17 -O1 -emit-llvm -c -fno-vectorize -fno-slp-vectorize -DEIGEN_DONT_VECTORIZE "
           "-DEIGEN_DONT_PARALLELIZE -ffp-contract=off -w").split()
NATFLAGS = "-std=c++17 -O1 -w -fPIC -fsemantic-interposition -ftrivial-auto-var-init=pattern -DEIGEN_DONT_PARALLELIZE -fno-omit-frame-pointer".split()
# names of the files the harness replaces
REPLACED = {"src/etc/debug.cpp"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Broken(Exception):
    pass


@contextlib.contextmanager
def lock(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def cache_dir():
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "verif_cache")):
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, ".w%d" % os.getpid())
            open(p, "w").close()
            os.unlink(p)
            return d
        except OSError:
            continue
    raise Broken("no writable cache directory")


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def prune(d, keep):
    ent = sorted((e for e in os.scandir(d) if e.is_dir()), key=lambda e: -e.stat().st_mtime)
    for e in ent[keep:]:
        shutil.rmtree(e.path, ignore_errors=True)


# ------------------------------------------------------------------ symbolic executor
def symex_binary():
    src = [os.path.join(VERIF, "symex", f) for f in ("symex.cpp", "expr.h", "norm.h", "solver.h", "build.sh")]
    key = digest(src)
    base = os.path.join(cache_dir(), "symex")
    out = os.path.join(base, key, "symex")
    if os.path.exists(out):
        return out
    with lock(os.path.join(base, "lock")):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            r = sh(["bash", os.path.join(VERIF, "symex/build.sh"), out + ".tmp"])
            if r.returncode:
                raise Broken("symbolic executor does not build:\n" + r.stdout[-3000:])
            os.rename(out + ".tmp", out)
            prune(base, 2)
    return out


# ------------------------------------------------------------------ sources
def sources(root):
    """The C++ sources of the extension module, in the order they are linked."""
    txt = open(os.path.join(root, "CMakeLists.txt"), encoding="utf-8").read()
    m = re.search(r"(?is)\bset\s*\(\s*SRCS\b(.*?)\)", txt)
    out = []
    if m:
        out = [re.sub(r"#.*", "", t).strip() for t in re.split(r"\s+", re.sub(r"#[^\n]*", "", m.group(1)))]
        out = [t for t in out if t.endswith((".cpp", ".cc", ".cxx")) and not t.startswith("bindings")]
    have = set(out)
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), root)
            if f.endswith(".cpp") and p not in have and not m:
                out.append(p)
    return [p for p in out if p not in REPLACED and os.path.exists(os.path.join(root, p))]


def tree_digest(extra):
    ps = []
    for base in ("src", "include/skfmm"):
        for d, _, fs in os.walk(os.path.join(CPP, base)):
            ps += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".h", ".hpp"))]
    ps.append(os.path.join(CPP, "CMakeLists.txt"))
    return digest(ps, extra)


def configured_root(config, work):
    """A copy of the sources with other compile-time options, or the sources themselves."""
    if not config:
        return CPP
    root = os.path.join(work, "cfg_" + re.sub(r"\W", "_", config))
    if not os.path.isdir(root):
        os.makedirs(root)
        shutil.copytree(os.path.join(CPP, "src"), os.path.join(root, "src"))
        os.symlink(os.path.join(CPP, "include"), os.path.join(root, "include"))
        shutil.copy(os.path.join(CPP, "CMakeLists.txt"), root)
        p = os.path.join(root, "src/options.h")
        s = open(p, encoding="utf-8").read()
        for kv in config.split(","):
            k, v = kv.split("=")
            s, n = re.subn(r"(?m)^(\s*const\s+\w+\s+%s\s*=\s*)[^;]+;" % re.escape(k), r"\g<1>%s;" % v, s)
            if n != 1:
                raise Broken("option %s not found in options.h" % k)
        open(p, "w", encoding="utf-8").write(s)
    return root


def includes(root):
    return ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness/include"),
            "-I" + os.path.join(VERIF, "symex"), "-I" + os.path.join(root, "include"), "-I" + root]


def run_compiles(cmds, what):
    def one(c):
        r = sh(c[0])
        return c[1], r.returncode, r.stdout
    with ThreadPoolExecutor(NPROC) as ex:
        bad = [(n, o) for n, rc, o in ex.map(one, cmds) if rc]
    if bad:
        raise Broken("%s: %s does not compile:\n%s" % (what, bad[0][0], bad[0][1][-3000:]))


def repo_bitcode(config, work):
    key = tree_digest("ir2" + (config or "") + " ".join(IRFLAGS))
    base = os.path.join(cache_dir(), "ir")
    d = os.path.join(base, key)
    with lock(os.path.join(base, "lock_" + key)):
        if not os.path.exists(os.path.join(d, "done")):
            root = configured_root(config, work)
            os.makedirs(d, exist_ok=True)
            srcs = sources(root)
            # biggest first
            order = sorted(srcs, key=lambda s: 0 if re.search("riemann|lgmres|eig|fluxes|dg[12]|newton|globals", s) else 1)
            cmds = []
            for s in order:
                o = os.path.join(d, s.replace("/", "_") + ".bc")
                cmds.append((["clang++-18"] + IRFLAGS + includes(root) + [os.path.join(root, s), "-o", o], s))
            o = os.path.join(d, "rt_print.bc")
            cmds.append((["clang++-18"] + IRFLAGS + includes(root) + [os.path.join(VERIF, "harness/rt_print.cpp"), "-o", o], "rt_print"))
            run_compiles(cmds, "lowering to LLVM IR")
            r = sh(["llvm-link-18"] + [os.path.join(d, s.replace("/", "_") + ".bc") for s in srcs] +
                   [os.path.join(d, "rt_print.bc"), "-o", os.path.join(d, "repo.bc")])
            if r.returncode:
                raise Broken("llvm-link: " + r.stdout[-2000:])
            for f in os.listdir(d):
                if f.endswith(".bc") and f != "repo.bc":
                    os.unlink(os.path.join(d, f))
            open(os.path.join(d, "done"), "w").close()
            prune(base, 6)
        else:
            os.utime(d)
    return os.path.join(d, "repo.bc")


def link_harness(harness, config, work, repo_bc):
    root = configured_root(config, work)
    name = re.sub(r"\W", "_", harness + (config or ""))
    src = harness if os.path.isabs(harness) else os.path.join(VERIF, "harness", harness)
    hb = os.path.join(work, name + ".h.bc")
    r = sh(["clang++-18"] + IRFLAGS + includes(root) + [src, "-o", hb])
    if r.returncode:
        raise Broken("harness %s does not compile:\n%s" % (harness, r.stdout[-3000:]))
    out = os.path.join(work, name + ".bc")
    r = sh(["llvm-link-18", repo_bc, hb, "-o", out])
    if r.returncode:
        raise Broken("llvm-link %s: %s" % (harness, r.stdout[-2000:]))
    return out


# ------------------------------------------------------------------ native replay
def nparams(sig):
    depth = n = 0
    for c in sig:
        if c in "(<":
            depth += 1
        elif c in ")>":
            depth -= 1
            if depth == 0:
                break
        elif depth == 1 and c == ",":
            n += 1
        elif depth and n == 0 and c != " ":
            n = 1
    return n


class Native:
    """Compiles the real code with the harness, for replaying counterexamples."""

    def __init__(self, work):
        self.work = work
        self.built = {}
        self.objs = {}

    def objects(self, config, asan):
        k = (config, asan)
        if k in self.objs:
            return self.objs[k]
        root = configured_root(config, self.work)
        d = os.path.join(self.work, "nat%d_%s" % (asan, re.sub(r"\W", "_", config or "")))
        os.makedirs(d, exist_ok=True)
        fl = NATFLAGS + (["-fsanitize=address"] if asan else [])
        cmds, objs = [], []
        srcs = sources(root)
        order = sorted(srcs, key=lambda s: 0 if re.search("riemann|lgmres|eig|fluxes|dg[12]|newton|globals", s) else 1)
        for s in order:
            o = os.path.join(d, s.replace("/", "_") + ".o")
            cmds.append((["g++"] + fl + includes(root) + ["-c", os.path.join(root, s), "-o", o], s))
        for s in ("native_rt.cpp", "rt_print.cpp"):
            o = os.path.join(d, s + ".o")
            cmds.append((["g++"] + fl + includes(root) + ["-c", os.path.join(VERIF, "harness", s), "-o", o], s))
        run_compiles(cmds, "native build")
        objs = [os.path.join(d, s.replace("/", "_") + ".o") for s in srcs] + [os.path.join(d, s + ".o") for s in ("native_rt.cpp", "rt_print.cpp")]
        self.objs[k] = objs
        return objs

    def binary(self, harness, config, stubs, asan):
        k = (harness, config, tuple(sorted(stubs.items())), asan)
        if k in self.built:
            return self.built[k]
        objs = self.objects(config, asan)
        root = configured_root(config, self.work)
        fl = NATFLAGS + (["-fsanitize=address"] if asan else [])
        h = hashlib.sha256(repr(k).encode()).hexdigest()[:10]
        ho = os.path.join(self.work, "h_%s.o" % h)
        src = harness if os.path.isabs(harness) else os.path.join(VERIF, "harness", harness)
        r = sh(["g++"] + fl + includes(root) + ["-c", src, "-o", ho])
        if r.returncode:
            raise Broken("native harness: " + r.stdout[-2000:])
        syms = set()
        use = list(objs)
        for name, target in stubs.items():
            arity = None
            if "/" in name:
                name, arity = name.split("/")
                arity = int(arity)
            for i, o in enumerate(objs):
                raw = sh(["nm", "--defined-only", o]).stdout
                dem = sh(["c++filt"], input=raw).stdout.splitlines()
                for a, b in zip(raw.splitlines(), dem):
                    p = b.split(None, 2)
                    q = a.split()
                    if len(p) == 3 and p[1] in "TW" and re.match(re.escape(name) + r"\(", p[2]) and arity in (None, nparams(p[2][len(name):])):
                        syms.add((q[2], target, i))
        for i in sorted({t[2] for t in syms}):
            o = os.path.join(self.work, "w%s_%d.o" % (h, i))
            r = sh(["objcopy"] + ["--weaken-symbol=" + t[0] for t in syms if t[2] == i] + [objs[i], o])
            if r.returncode:
                raise Broken("objcopy: " + r.stdout[-500:])
            use[i] = o
        wraps = sorted({"-Wl,--defsym=%s=%s" % (t[0], t[1]) for t in syms})
        out = os.path.join(self.work, "replay_" + h)
        r = sh(["g++"] + fl + ["-rdynamic", "-o", out, ho] + use + wraps + ["-ldl"])
        if r.returncode:
            raise Broken("native link: " + r.stdout[-2000:])
        self.built[k] = out
        return out

    def run(self, job, model, asan=False, timeout=60, point=None):
        b = self.binary(job["harness"], job.get("config"), job.get("stubs") or {}, asan)
        fd, p = tempfile.mkstemp(dir=self.work, suffix=".model")
        with os.fdopen(fd, "w") as f:
            for k, v in model.items():
                f.write("%s %.17g\n" % (k, v))
            for k, v in job["params"].items():
                f.write("param:%s %d\n" % (k, v))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=254:max_malloc_fill_size=1048576:detect_stack_use_after_return=0",
                   MALLOC_PERTURB_="1", OMP_NUM_THREADS="1")
        if point is not None:
            env["SX_RANDOM"] = str(point)
        try:
            r = subprocess.run([b, job["entry"], p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=env, errors="replace")
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 124, "timeout"


# ------------------------------------------------------------------ running jobs
def job_label(j):
    return j["entry"] + "".join(" %s=%s" % kv for kv in sorted(j["params"].items())) + (" [%s]" % j["config"] if j.get("config") else "")


def run_symex(binary, j, bc, work, seed, idx):
    out = os.path.join(work, "r%d.json" % idx)
    cmd = [binary, "--entry", j["entry"], "--out", out, "--seed", str(seed), "--wall", str(j.get("wall", 240)),
           "--timeout", str(j.get("timeout", 20)), "--feas", str(j.get("feas", 5)), "--paths", str(j.get("paths", 20000))]
    for k, v in j["params"].items():
        cmd += ["--param", "%s=%d" % (k, v)]
    for k, v in (j.get("stubs") or {}).items():
        cmd += ["--stub", "%s=%s" % (k, v)]
    for k in ("ite", "exact"):
        if j.get(k):
            cmd.append("--" + k)
    if j.get("dump"):
        os.makedirs(j["dump"], exist_ok=True)
        cmd += ["--dump", j["dump"]]
    cmd.append(bc)
    if os.path.exists(out):
        os.unlink(out)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=j.get("wall", 240) + 120)
        err = r.stderr
        if os.environ.get("SX_ERR"): print(err)
    except subprocess.TimeoutExpired:
        err = "killed after the wall limit"
    res = {"status": "error", "error": "symex died: " + err[-500:], "findings": [], "checks": 0}
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    res["seconds"] = time.time() - t0
    return res


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def solver_crosscheck(qdir, limit, seed):
    """Feeds a sample of this run's queries to cvc5 and compares the verdicts."""
    qs = sorted(os.path.join(d, f) for d, _, fs in os.walk(qdir) for f in fs if f.endswith(".smt2"))
    random.Random(seed).shuffle(qs)
    qs = qs[:limit]
    def one(q):
        txt = open(q).read()
        txt = "\n".join(l for l in txt.splitlines() if not l.startswith(("(reset)", "(set-option")))
        a = subprocess.run(["z3-new", "-T:10", q], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        if "(set-logic" not in txt:
            txt = "(set-logic ALL)\n" + txt
        b = subprocess.run(["cvc5", "--tlimit=10000", "-"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        def v(s):
            l = [x.strip() for x in s.splitlines()]
            return "unsat" if "unsat" in l else "sat" if "sat" in l else "unknown"
        return q, v(a), v(b)
    agree = disagree = undecided = 0
    bad = []
    with ThreadPoolExecutor(NPROC) as ex:
        for q, a, b in ex.map(one, qs):
            if "unknown" in (a, b):
                undecided += 1
            elif a == b:
                agree += 1
            else:
                disagree += 1
                bad.append(q)
    return {"queries": len(qs), "agree": agree, "undecided_by_one": undecided, "disagree": disagree}, bad


def decide(prop, tier, seed):
    import catalog
    t0 = time.time()
    spec = catalog.PROPS[prop]
    jobs = []
    for j in spec["jobs"]:
        if j.get("tier", "quick") == "quick" or tier == "thorough":
            j = dict(j)
            j.setdefault("params", {})
            jobs.append(j)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return decide_in(prop, tier, seed, spec, jobs, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide_in(prop, tier, seed, spec, jobs, work, t0):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    # generated harnesses (the Python side is traced into straight-line C++)
    gen = {}
    for j in jobs:
        g = j.get("generate")
        if g and g not in gen:
            p = os.path.join(work, "gen_%d.cpp" % len(gen))
            r = subprocess.run([os.environ.get("VERIF_PY", "/opt/phd-venv/bin/python"), os.path.join(VERIF, "pytrace", "trace.py"), g, p],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONPATH=os.path.join(REPO, "code/python"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
            if r.returncode:
                raise Broken("tracing %s: %s" % (g, r.stdout[-3000:]))
            gen[g] = p
        if g:
            j["harness"] = gen[g]
    configs = sorted({j.get("config") or "" for j in jobs})
    with ThreadPoolExecutor(4) as ex:
        fs = ex.submit(symex_binary)
        bcs = {c: repo_bitcode(c or None, work) for c in configs}
        binary = fs.result()
    hs = sorted({(j["harness"], j.get("config") or "") for j in jobs})
    with ThreadPoolExecutor(NPROC) as ex:
        linked = dict(zip(hs, ex.map(lambda h: link_harness(h[0], h[1] or None, work, bcs[h[1]]), hs)))
    if tier == "thorough":
        for i, j in enumerate(jobs):
            j["dump"] = os.path.join(work, "dump", str(i))
    tb = time.time()
    with ThreadPoolExecutor(NPROC) as ex:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 0))
        futs = {i: ex.submit(run_symex, binary, jobs[i], linked[(jobs[i]["harness"], jobs[i].get("config") or "")], work, seed, i) for i in order}
        results = [futs[i].result() for i in range(len(jobs))]
    problems, violations, known_hit = [], [], []
    native = Native(work)
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    replays = 0
    replay_t0 = time.time()

    def save(name, j, msg, model, asan, rc, out, point):
        d = os.path.join(ev, "replays", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        jj = {k: v for k, v in j.items() if k in ("harness", "entry", "params", "config", "stubs")}
        if os.path.isabs(jj["harness"]):
            shutil.copy(jj["harness"], os.path.join(d, "harness.cpp"))
            jj["harness"] = os.path.join(d, "harness.cpp")
        json.dump({"property": prop, "job": jj, "message": msg, "model": model, "asan": asan, "point": point, "native_exit": rc,
                   "native_output": out[-2000:]}, open(os.path.join(d, "counterexample.json"), "w"), indent=1)
        return d

    for j, r in zip(jobs, results):
        lab = job_label(j)
        for f in r.get("findings", []):
            kf = [k for k in known if k["entry"] == j["entry"] and re.fullmatch(k["msg"], f["msg"]) and
                  all(j["params"].get(a) == b for a, b in k.get("params", {}).items())]
            asan = f["msg"].startswith(("memory", "bad free", "double free", "invalid free"))
            hit = None
            if len(violations) >= 3 or time.time() - replay_t0 > 300:
                continue
            cands = f["models"][:8] or [{}]
            for m in cands:
                rc, out = native.run(j, m, asan)
                replays += 1
                if rc == 1 or (rc not in (0, 1, 3, 4, 124) and not kf) or (rc not in (0, 3, 4, 124)):
                    hit = (m, rc, out)
                    break
            if hit and kf:
                known_hit.append((kf[0], f["msg"]))
                continue
            if hit:
                d = save("%s-%d" % (prop, len(violations)), j, f["msg"], hit[0], asan, hit[1], hit[2], None)
                violations.append((d, lab, f["msg"], hit[2]))
            else:
                problems.append("%s: '%s' (%s) was not reproduced natively" % (lab, f["msg"], f["verdict"]))
        if r["status"] != "ok":
            problems.append("%s: %s: %s" % (lab, r["status"], r.get("error")))
        else:
            if r["completed"] < j.get("min_completed", 1):
                problems.append("%s: only %d completed paths (vacuous)" % (lab, r["completed"]))
            elif r["witness"] == "none" and not r["findings"]:
                problems.append("%s: no reachability witness" % lab)
            if r["checks"] < j.get("min_checks", 1) and not r["findings"]:
                problems.append("%s: only %d assertions reached" % (lab, r["checks"]))
    # what the solver could not decide is searched for a native counterexample
    open_jobs = [(j, r) for j, r in zip(jobs, results) if r["status"] != "ok" or any(f["msg"] for f in r.get("findings", []))]
    if open_jobs and not violations:
        replay_t0 = time.time()
        for point in range(40):
            for j, r in open_jobs:
                if violations or time.time() - replay_t0 > 120 or any(k["entry"] == j["entry"] for k in known):
                    continue
                rc, out = native.run(j, {}, point=point)
                replays += 1
                if rc == 1:
                    violations.append((save("%s-%d" % (prop, len(violations)), j, out.strip().splitlines()[0], {}, False, rc, out, point),
                                       job_label(j), "found at a native point after the solver gave no verdict", out))
    # translator validation: the reachability witness of each job must also hold natively
    validated = tried = 0
    if tier == "thorough" and not violations:
        for j, r in zip(jobs, results):
            if r.get("witness_model") is not None and r.get("witness") != "none" and not r["findings"]:
                rc, out = native.run(j, r["witness_model"])
                tried += 1
                if rc == 0:
                    validated += 1
                elif rc not in (3, 124):
                    problems.append("%s: the witness fails natively (exit %d): %s" % (job_label(j), rc, out[-300:]))
    cross = None
    if tier == "thorough":
        cross, bad = solver_crosscheck(os.path.join(work, "dump"), 400, seed)
        if bad:
            problems.append("z3 and cvc5 disagree on %d queries" % len(bad))
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    fns = sorted(set().union(*[set(r.get("functions", [])) for r in results]) if results else [])
    fns = [f for f in fns if not f.startswith(("h_", "_GLOBAL", "__cxx")) and f not in ("real", "nm", "eq", "reals", "eqn")]
    msgs = {}
    for r in results:
        for k, v in r.get("messages", {}).items():
            msgs[k] = msgs.get(k, 0) + v
    cov = {
        "explanation": "Bounded symbolic execution of the LLVM IR that clang lowers from /repo's current sources: every input named by the "
                       "harness is a symbolic real/integer, each path is enumerated, and every assertion is negated and given with its path "
                       "condition to z3 (unsat = holds for all values within the bounds). A counterexample counts only after the natively "
                       "compiled code reproduces it.",
        "functions_encoded": fns,
        "jobs": len(jobs),
        "paths": tot("paths"), "paths_completed": tot("completed"), "paths_infeasible": tot("infeasible"),
        "assertions": tot("checks"), "assertions_identical_terms": tot("trivial"),
        "assertions_closed_by_normal_form_and_solver": tot("normal_form"),
        "assertions_closed_by_solver": tot("solver_checks"), "assertions_undecided": tot("unknown"),
        "feasibility_queries": tot("feasibility_queries"),
        "queries": tot("feasibility_queries") + tot("normal_form") + tot("solver_checks"),
        "solver_seconds": round(tot("solver_seconds"), 3),
        "ir_instructions": tot("instructions"), "symbolic_inputs": tot("inputs"), "expression_nodes": tot("expr_nodes"),
        "assertion_texts": msgs,
        "bounds": spec.get("bounds", ""), "outside": spec.get("outside", ""),
        "native_replays": replays,
        "samples": [{"job": job_label(j), "witness": r.get("witness_model", {}), "checks": r.get("checks")} for j, r in list(zip(jobs, results))[:3]],
        "slowest": sorted(((round(r["seconds"], 1), job_label(j)) for j, r in zip(jobs, results)), reverse=True)[:3],
        "compile_seconds": round(tb - t0, 1),
    }
    if problems:
        cov["undecided"] = problems[:20]
    if cross is not None:
        cov["solver_crosscheck_cvc5"] = cross
        cov["witnesses_replayed_natively"] = {"tried": tried, "agree": validated}
    rep = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": spec.get("assumptions", []) + GENERAL, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(rep, f, indent=1)
    done = set()
    for k, msg in known_hit:
        if k["what"] not in done:
            done.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for d, lab, msg, out in violations:
        print("  %s: %s" % (lab, msg))
        print("    " + "\n    ".join(out.strip().splitlines()[-4:]))
        print("VIOLATION property=%s replay=%s" % (prop, d))
    for p in problems:
        print("UNDECIDED: " + p)
    print("%s: %d jobs, %d paths, %d assertions, %d queries, %.1f s of solver, %.1f s" %
          (prop, len(jobs), cov["paths"], cov["assertions"], cov["queries"], cov["solver_seconds"], time.time() - t0))
    if violations:
        return 1
    if problems:
        # something was left undecided: an answer only if the rest of the property was explored
        decided = sum(1 for r in results if r["status"] == "ok" and not r.get("findings") and r.get("checks", 0) > 0 and r.get("completed", 0) > 0)
        return 0 if decided * 2 >= len(jobs) or (decided and tot("unknown") == 0) else 2
    return 0


GENERAL = [
    "double arithmetic is taken as exact real arithmetic (rounding, overflow and NaN are outside the claim)",
    "clang -O1 lowering, the IR interpreter of /verif/symex and z3 are trusted",
]


def replay(d):
    c = json.load(open(os.path.join(d, "counterexample.json")))
    work = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        rc, out = Native(work).run(c["job"], c["model"], c["asan"], point=c.get("point"))
        print(out)
        print("native exit", rc)
        return 1 if rc not in (0, 3, 4, 124) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    try:
        if a.setup:
            symex_binary()
            return 0
        if a.replay:
            return replay(a.replay)
        return decide(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    except Broken as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
