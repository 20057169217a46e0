#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property by simulation
   check.py replay FILE [-v]           execute a replay file again
   check.py setup                      verify that the tools are there
   check.py profiles                   list worlds and profiles

The simulator is built from /repo's current working tree. Everything random derives from VERIF_SEED."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = min(8, os.cpu_count() or 8)
WORKERS = 8
sys.path.insert(0, os.path.join(VERIF, "tools"))

SAN = "-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,shift-base -fno-sanitize-recover=undefined".split()
ABSL = ["-Wl,--start-group"] + sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")) + ["-Wl,--end-group"]
INSTR = ["-std=c++14", "-O0", "-gline-tables-only", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
         "-fsanitize-coverage=trace-pc-guard", "-I" + REPO + "/include"] + SAN
PLAIN = ["-std=c++17", "-O1", "-g1", "-w", "-I" + VERIF + "/sim"] + SAN
ENV = dict(os.environ, ASAN_OPTIONS="quarantine_size_mb=8:detect_leaks=0:abort_on_error=0:exitcode=94:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=93", LC_ALL="C")
for k in ("TZ", "LD_PRELOAD", "TZDIR"):
    ENV.pop(k, None)

sys.modules.setdefault("check", sys.modules[__name__])
from profiles import PROPS, WORLDS  # noqa: E402


class Broken(Exception):
    """The check itself cannot give an answer"""


class Rejected(Exception):
    """A vetted schema was rejected, or its generated code does not compile"""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


# ------------------------------------------------------------------------------------------------------------- build
_tree = {}


def tree_hash(*paths):
    if paths not in _tree:
        h = hashlib.sha256()
        for p in paths:
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if not f.endswith((".pyc", ".o")))
            for f in files:
                h.update(f.encode() + b"\0")
                with open(f, "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
        _tree[paths] = h.hexdigest()
    return _tree[paths]


def key(*parts):
    return hashlib.sha256("\0".join(map(str, parts)).encode()).hexdigest()[:32]


def cached(name, k, make):
    """make(path) creates the file"""
    d = os.path.join(CACHE, k)
    p = os.path.join(d, name)
    if os.path.exists(p):
        os.utime(d)
        return p
    tmp = d + ".tmp%d" % os.getpid() + name
    os.makedirs(tmp, exist_ok=True)
    try:
        make(os.path.join(tmp, name))
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(p):
                os.makedirs(d, exist_ok=True)
                for f in os.listdir(tmp):
                    os.replace(os.path.join(tmp, f), os.path.join(d, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return p


def prune():
    try:
        ds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    except OSError:
        return
    for d in ds[:-400]:
        shutil.rmtree(d, ignore_errors=True)


def compile_obj(cc, flags, src, deps, what="source"):
    def make(out):
        r = sh([cc] + flags + ["-c", src, "-o", out])
        if r.returncode:
            msg = r.stderr.decode(errors="replace")
            if r.returncode < 0 or "PLEASE submit a bug report" in msg or "Killed" in msg:
                r = sh([cc] + flags + ["-c", src, "-o", out])
                if r.returncode == 0:
                    return
            raise Broken("%s does not compile: %s\n%s" % (what, src, msg[:3000]))
    return cached(os.path.basename(src) + ".o", key(cc, flags, src, tree_hash(*deps)), make)


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(JOBS + 2)
        self.ctree = tree_hash(REPO + "/src", REPO + "/include")

    def autogen(self):
        """directory with autogen/asn_compiler.hpp"""
        yacc = REPO + "/src/compiler/asn_compiler.yacc"
        copy = REPO + "/src/compiler/autogen_copy/asn_compiler.hpp"

        def make(out):
            os.makedirs(os.path.dirname(out) + "/autogen")
            dst = os.path.dirname(out) + "/autogen/asn_compiler.hpp"
            pinned = "/opt/vp/asn_compiler.yacc.sha256"
            same = True
            if os.path.exists(pinned):
                want = open(pinned).read().split()[0]
                same = hashlib.sha256(open(yacc, "rb").read()).hexdigest() == want
            if same:
                shutil.copyfile(copy, dst)
            else:
                re_ = os.path.dirname(out) + "/asn_compiler.re"
                r = sh(["bison", "-Wno-other", "-Wno-deprecated", "-Wno-empty-rule", yacc, "-t", "-o", re_])
                r2 = sh(["re2c", "--no-generation-date", "-o", dst, re_])
                if r.returncode or r2.returncode:
                    raise Broken("the parser cannot be generated: " + (r.stderr + r2.stderr).decode()[:2000])
            open(out, "w").close()
        return os.path.dirname(cached("done", key("autogen", tree_hash(yacc, copy)), make))

    def compiler_objs(self, flags=("-std=c++11", "-O0"), cc="g++"):
        ag = self.autogen()
        inc = ["-I" + REPO + "/include", "-I" + REPO + "/src/compiler/include", "-I" + ag]
        srcs = sorted(glob.glob(REPO + "/src/compiler/*.cpp"))
        return [self.pool.submit(compile_obj, cc, list(flags) + ["-w"] + inc, s, (REPO + "/src", REPO + "/include"), "the schema compiler")
                for s in srcs]

    def compiler(self):
        ag = self.autogen()
        objs = self.compiler_objs()
        inc = ["-I" + REPO + "/include", "-I" + REPO + "/src/compiler/include", "-I" + ag]
        objs.append(self.pool.submit(compile_obj, "g++", ["-std=c++11", "-O0", "-w"] + inc, REPO + "/src/compiler_main/CompilerMain.cpp",
                                     (REPO + "/src", REPO + "/include"), "the schema compiler"))
        objs = [o.result() for o in objs]

        def make(out):
            r = sh(["g++", "-o", out] + objs + ABSL)
            if r.returncode:
                raise Broken("the schema compiler does not link: " + r.stderr.decode()[:2000])
        return cached("fast_ber_compiler", key("link", objs, self.ctree), make)

    def group(self, compiler, g, extra=()):
        """object of the generated code and the bridge of a schema group"""
        import emit

        def make(out):
            d = os.path.dirname(out)
            files = emit.emit(d, g)
            for _ in range(2):
                r = sh([compiler] + files + [os.path.join(d, "gen_" + g)], cwd=d, timeout=120)
                if r.returncode >= 0:
                    break
            if r.returncode:
                raise Rejected("the compiler exits with %d for the schema group %s: %s" % (r.returncode, g, (r.stdout + r.stderr).decode(errors="replace")[-800:]))
            src = os.path.join(d, "bridge_%s.cpp" % g)
            r = sh(["clang++"] + INSTR + list(extra) + ["-I" + VERIF + "/sim", "-I" + d, "-c", src, "-o", out])
            if r.returncode:
                msg = r.stderr.decode(errors="replace")
                if r.returncode < 0 or "PLEASE submit a bug report" in msg:
                    raise Broken("clang crashed: " + msg[:500])
                raise Rejected("the generated code of the schema group %s does not compile: %s" % (g, msg[:1500]))
        return cached("bridge_%s.o" % g, key("bridge", g, INSTR, list(extra), self.ctree, tree_hash(VERIF + "/tools", VERIF + "/sim/bridge.hpp", VERIF + "/sim/reg.hpp", VERIF + "/sim/val.hpp")), make)

    def world(self, name):
        """-> (binary, dropped groups with reasons)"""
        w = WORLDS[name]
        if "build" in w:
            return w["build"](self), {}
        simdeps = (VERIF + "/sim",)
        futs = []
        groups = w.get("groups", [])
        instr = INSTR + w.get("instr", [])
        for s in ["core", "val"] + w.get("plain", []):
            futs.append(self.pool.submit(compile_obj, "clang++", PLAIN + w.get("flags", []), VERIF + "/sim/%s.cpp" % s, simdeps))
        for s in [REPO + "/src/ber_types/Real.cpp", REPO + "/src/util/BerView.cpp"]:
            futs.append(self.pool.submit(compile_obj, "clang++", instr, s, (REPO + "/include", REPO + "/src/ber_types", REPO + "/src/util"), "the library"))
        for s in w.get("instrumented", []) + ([name] if w.get("main_instrumented") else []):
            futs.append(self.pool.submit(compile_obj, "clang++", instr + ["-I" + VERIF + "/sim"], VERIF + "/sim/%s.cpp" % s, simdeps + (REPO + "/include",), "the harness against the library"))
        dropped, gobjs = {}, []
        if groups:
            compiler = self.compiler()
            gf = [(g, self.pool.submit(self.group, compiler, g, w.get("instr", []))) for g in groups]
            for g, f in gf:
                try:
                    gobjs.append((g, f.result()))
                except Rejected as e:
                    dropped[g] = str(e)
        if groups and not gobjs:
            raise Rejected("; ".join(dropped.values())[:3000])
        x = " ".join("X(%s)" % g for g, _ in gobjs)
        if not w.get("main_instrumented"):
            futs.append(self.pool.submit(compile_obj, "clang++", PLAIN + w.get("flags", []) + ["-DGROUPS=" + x], VERIF + "/sim/%s.cpp" % name, simdeps))
        objs = [f.result() for f in futs] + [o for _, o in gobjs]

        def make(out):
            r = sh(["clang++"] + SAN + ["-o", out] + objs + w.get("link", []) + ABSL + ["-lpthread", "-ldl"])
            if r.returncode:
                raise Broken("the simulator does not link: " + r.stderr.decode(errors="replace")[:3000])
        return cached("sim_" + name, key("world", objs, w.get("link", [])), make), dropped


# --------------------------------------------------------------------------------------------------------- execution
def classify(rc, out, err):
    """-> None if the run passed, else (class, text)"""
    m = re.search(r"^VIOLATED (\S+) \| (.*)$", out, re.M)
    if m:
        return ("violated:" + m.group(1), m.group(2))
    if rc == 0:
        return None
    m = re.search(r"SIM-FATAL (\S+?):? (.*)", err) or re.search(r"SIM-FATAL (\S+)()", err)
    if m:
        return ("fatal:" + m.group(1), m.group(2) or m.group(1))
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)(.*)", err)
    if m:
        return ("fatal:" + m.group(1), m.group(1) + m.group(2)[:200] + " " + where(err))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return ("fatal:undefined-behaviour", m.group(1)[:200] + " " + where(err))
    if rc == 124:
        return ("fatal:hang", "no progress")
    return ("fatal:exit-%d" % rc, err[-300:])


def where(err):
    m = re.search(r"#\d+ 0x\S+ in (?!__|operator|abort)(.{0,160}?)(?: /\S*/| \()", err)
    return "in " + m.group(1) if m else ""


def run_plan(binary, profile, plan_path, verbose=False, timeout=60):
    cmd = [binary, "run", profile, plan_path] + (["-v"] if verbose else [])
    try:
        r = sh(cmd, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return ("fatal:hang", "no end within %d s" % timeout), ""
    out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    m = re.search(r"^HASH (\S+)", out, re.M)
    if verbose:
        sys.stderr.write(err[-20000:])
    return classify(r.returncode, out, err), m.group(1) if m else ""


class Scratch:
    def __init__(self, tag):
        self.d = os.path.join(BUILD, "run_%s_%d" % (tag, os.getpid()))
        os.makedirs(self.d, exist_ok=True)
        self.n = 0

    def file(self, name):
        return os.path.join(self.d, name)

    def plan(self, lines):
        self.n += 1
        p = self.file("plan%d_%d" % (self.n, os.getpid()))
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def minimise(binary, profile, lines, cls, scratch, budget):
    """Drop operations, then simplify their arguments, while the same class of violation persists"""
    end = time.time() + budget
    tests = [0]

    def fails(ls):
        if time.time() > end:
            return False
        tests[0] += 1
        p = scratch.plan(ls)
        try:
            c, _ = run_plan(binary, profile, p, timeout=20)
        finally:
            os.unlink(p)
        return c is not None and c[0] == cls
    pool = cf.ThreadPoolExecutor(JOBS)

    def first(cands):
        cands = list(cands)
        for i in range(0, len(cands), JOBS):
            chunk = cands[i:i + JOBS]
            for c, ok in zip(chunk, pool.map(fails, chunk)):
                if ok:
                    return c
            if time.time() > end:
                return None
        return None
    n = 2
    while len(lines) >= 2:
        size = max(1, len(lines) // n)
        c = first([lines[:i] + lines[i + size:] for i in range(0, len(lines), size)])
        if c is not None:
            lines, n = c, max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(lines), n * 2)
    for i in range(len(lines)):
        parts = lines[i].split()
        for k in range(1, len(parts)):
            v = int(parts[k])
            while v != 0:
                cand = []
                for w in (0, v // 10, v // 2, v - 1):
                    if abs(w) < abs(v):
                        q = parts[:k] + [str(w)] + parts[k + 1:]
                        cand.append(lines[:i] + [" ".join(q)] + lines[i + 1:])
                c = first(cand)
                if c is None:
                    break
                lines = c
                parts = lines[i].split()
                v = int(parts[k])
            if time.time() > end:
                break
    return lines, tests[0]


def plan_of(binary, profile, seed):
    r = sh([binary, "gen", profile, str(seed)], env=ENV)
    return [l for l in r.stdout.decode().split("\n") if l]


def report_violation(prop, world, binary, profile, seed, scratch, first, what, budget=90):
    """Gate, minimise and write the replay file. -> path, class, text"""
    lines = plan_of(binary, profile, seed)
    p = scratch.plan(lines)
    a, ha = run_plan(binary, profile, p)
    if a is None:
        # What earlier runs of the same process left behind may matter: they become part of the replay
        before = list(range(seed - WORKERS, first - 1, -WORKERS))
        for k in sorted({-1, 0, 1, 4, 16, 64, 256, len(before)}):
            if k > len(before):
                break
            seeds = [seed] if k < 0 else list(reversed(before[:k]))
            h = [l for s in seeds for l in plan_of(binary, profile, s) + ["next"]] + lines
            p = scratch.plan(h)
            a, ha = run_plan(binary, profile, p, timeout=120)
            if a is not None:
                lines = h
                break
    b, hb = run_plan(binary, profile, p, timeout=120)
    if a is None or b is None:
        raise Broken("seed %d failed in the batch (%s), but does not in a fresh process (%s, %s)" % (seed, what[:300], a, b))
    if a[0] != b[0] or ha != hb:
        raise Broken("seed %d is not deterministic: %s %s / %s %s" % (seed, a, ha, b, hb))
    small, tests = minimise(binary, profile, lines, a[0], scratch, budget)
    p = scratch.plan(small)
    c, hc = run_plan(binary, profile, p)
    d, hd = run_plan(binary, profile, p)
    if c is None or c[0] != a[0] or d is None or d[0] != c[0] or hc != hd:
        small = lines
        c, hc = a, ha
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%d.plan" % (prop, profile, seed))
    with open(path, "w") as f:
        f.write("# property %s world %s profile %s seed %d\n# class %s\n# hash %s\n# %s\n# minimised from %d to %d lines in %d executions\n# replay: python3 check.py replay %s\n" %
                (prop, world, profile, seed, c[0], hc, c[1].replace("\n", " ")[:500], len(lines), len(small), tests, path))
        f.write("\n".join(small) + "\n")
    return path, c[0], c[1]


def world_of(cfg, batch):
    return batch[3] if len(batch) > 3 else cfg["world"]


def explore(prop, tier, seed, cfg, binaries, scratch):
    """-> (statistics, failing seeds or None, batch)"""
    total = dict(runs=0, sim_us=0, events=0, ops=0, steps=0, counters={}, states=0, distinct=0, per_profile={}, wall=0.0)
    states, runhashes = set(), set()
    for batch in cfg["batches"]:
        prof, per_worker, cap = batch[:3]
        binary = binaries[world_of(cfg, batch)]
        if tier == "thorough":
            per_worker, cap = per_worker * 40, cfg.get("thorough_cap", 600) * (1.0 / len(cfg["batches"]))
        t0 = time.time()
        first = (seed * 1000003) % (1 << 40) * 1000
        procs = []
        for w in range(WORKERS):
            st, sf = scratch.file("st%d" % w), scratch.file("states%d" % w)
            for f in (st, sf, sf + ".runs"):
                if os.path.exists(f):
                    os.unlink(f)
            o, e = open(scratch.file("out%d" % w), "w"), open(scratch.file("err%d" % w), "w")
            cmd = [binary, "batch", prof, str(first + w), str(WORKERS), str(per_worker), str(cap), st, sf]
            procs.append((w, subprocess.Popen(cmd, stdout=o, stderr=e, env=ENV, cwd=scratch.d)))
            o.close(), e.close()
        deadline = time.time() + cap + 90
        failing = []
        for w, p in procs:
            hung = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung = True
            out = open(scratch.file("out%d" % w), errors="replace").read()
            err = open(scratch.file("err%d" % w), errors="replace").read()
            m = re.search(r"^STATS (\{.*\})$", out, re.M)
            if m:
                s = json.loads(m.group(1))
                for k in ("runs", "sim_us", "events", "ops", "steps"):
                    total[k] += s[k]
                pp = total["per_profile"].setdefault(prof, {"runs": 0})
                pp["runs"] += s["runs"]
                for k, v in s["counters"].items():
                    total["counters"][k] = total["counters"].get(k, 0) + v
            for name, dst in (("", states), (".runs", runhashes)):
                f = scratch.file("states%d" % w) + name
                if os.path.exists(f):
                    b = open(f, "rb").read()
                    dst.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
            for m in list(re.finditer(r"^UNEQUAL (\d+)", out, re.M))[:1]:
                # Either the simulation is at fault, or the code under test remembers something (a table built when first used)
                if not same_when_fresh(binary, prof, int(m.group(1)), scratch):
                    raise Broken("seed %s of profile %s is not deterministic" % (m.group(1), prof))
            m = re.search(r"^FAIL (\d+) (.*)$", out, re.M)
            if m:
                failing.append((int(m.group(1)), m.group(2)))
            elif p.returncode != 0 or hung:
                try:
                    sd = struct.unpack("<Q", open(scratch.file("st%d" % w), "rb").read(8))[0]
                except (OSError, struct.error):
                    raise Broken("worker %d ended with %s: %s" % (w, p.returncode, err[-800:]))
                if p.returncode == -9 and not hung:
                    raise Broken("worker %d was killed (seed %d)" % (w, sd))
                failing.append((sd, "hang" if hung else str(classify(p.returncode, out, err))))
        total["wall"] += time.time() - t0
        if failing:
            failing.sort()
            total["states"], total["distinct"] = len(states), len(runhashes)
            return total, failing, batch
    total["states"], total["distinct"] = len(states), len(runhashes)
    return total, None, None


def same_when_fresh(binary, prof, seed, scratch):
    """Does a seed give the same event log in processes of its own?"""
    r = sh([binary, "gen", prof, str(seed)], env=ENV)
    p = scratch.plan([l for l in r.stdout.decode().split("\n") if l])
    a, b = run_plan(binary, prof, p), run_plan(binary, prof, p)
    return a[1] != "" and a == b


def determinism(binary, prof, seed, scratch, n=24):
    """The same seeds in different processes and groupings give the same event logs"""
    first = (seed * 7919 + 17) % (1 << 40) * 1000

    def hashes(f, stride, count):
        r = sh([binary, "hashes", prof, str(f), str(stride), str(count)], env=dict(ENV, SIM_PAD="x" * (stride * 100)), timeout=300)
        if r.returncode:
            return None
        return dict(l.split() for l in r.stdout.decode().split("\n") if l)
    with cf.ThreadPoolExecutor(4) as ex:
        jobs = [ex.submit(hashes, first, 1, n)] + [ex.submit(hashes, first + k, 3, n // 3) for k in range(3)]
        res = [j.result() for j in jobs]
    if any(r is None for r in res):
        return None
    split = {k: v for r in res[1:] for k, v in r.items()}
    bad = [k for k in res[0] if res[0][k] != split.get(k)]
    return [k for k in bad[:4] if not same_when_fresh(binary, prof, int(k), scratch)]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    return [f for f in json.load(open(path)).get("findings", []) if f["property"] == prop]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    print("SEED %d property %s tier %s" % (seed, prop, tier), flush=True)
    scratch = Scratch(prop)
    violations = []
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage={}, assumptions=cfg["assumptions"], wall_s=0.0, violations=0)
    try:
        b = Builder()
        prune()
        dropped, binaries = {}, {}
        try:
            for w in sorted({world_of(cfg, x) for x in cfg["batches"]}):
                binaries[w], d = b.world(w)
                dropped.update(d)
            binary = binaries[world_of(cfg, cfg["batches"][0])]
        except Rejected as e:
            dropped = {"*": str(e)}
        if dropped and (prop in ("C02",) or "*" in dropped):
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-schema.plan" % prop)
            with open(path, "w") as f:
                f.write("# property %s world %s profile build seed %d\n# class rejected-schema\n" % (prop, cfg["world"], seed))
                for g, why in dropped.items():
                    f.write("# group %s: %s\n" % (g, why.replace("\n", "\n#   ")))
            print("a valid schema is not translated to usable code: %s" % json.dumps(dropped)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            evidence["violations"] = 1
            evidence["coverage"] = dict(evaluations=0, distinct_nontrivial=0, rule=cfg["rule"], samples=[json.dumps(dropped)[:2000]])
            return finish(evidence, t0, 1)
        t_build = time.time() - t0
        stats, failing, batch = explore(prop, tier, seed, cfg, binaries, scratch)
        code = 0
        if failing:
            broken = None
            for sd, what in failing[:4]:
                try:
                    path, cls, text = report_violation(prop, world_of(cfg, batch), binaries[world_of(cfg, batch)], batch[0], sd, scratch, (seed * 1000003) % (1 << 40) * 1000, what)
                except Broken as e:
                    broken = e
                    continue
                print("seed %d: %s %s" % (sd, cls, text[:800]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                violations.append(dict(seed=sd, cls=cls, text=text[:800], replay=path))
                code = 1
                break
            if not violations:
                raise broken
        det = None
        if not violations:
            for x in cfg["batches"]:
                bad = determinism(binaries[world_of(cfg, x)], x[0], seed, scratch)
                if bad is None:
                    raise Broken("the determinism check ended abnormally")
                if bad:
                    raise Broken("seeds %s differ between processes" % bad[:5])
            det = "of each profile, 24 seeds in 1 process and in 3 other processes: identical event logs"
        for f in known_findings(prop) if not violations else []:
            hit = True
            if f.get("probe", "").startswith("schema:"):
                import probes
                hit = getattr(probes, f["probe"][7:])(b)
            elif "probe" in f:
                r = sh([binary, "probe", f["probe"]], env=ENV, timeout=120)
                if r.returncode not in (0, 1):
                    raise Broken("probe %s ended with %d: %s" % (f["probe"], r.returncode, r.stderr.decode(errors="replace")[-500:]))
                hit = r.returncode == 1
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)
        samples = []
        for k in range(2):
            r = sh([binary, "gen", cfg["batches"][0][0], str((seed * 1000003) % (1 << 40) * 1000 + k)], env=ENV)
            samples.append("seed %d\n%s" % ((seed * 1000003) % (1 << 40) * 1000 + k, r.stdout.decode()[:1500]))
        faults = {k: v for k, v in stats["counters"].items() if k.startswith(("fault_", "alt_", "skew_"))}
        wall = max(stats["wall"], 0.001)
        evidence["coverage"] = dict(
            evaluations=stats["runs"], distinct_nontrivial=stats["distinct"], rule=cfg["rule"], samples=samples,
            simulated_runs=stats["runs"], seeds_per_hour=int(stats["runs"] / wall * 3600), simulated_seconds=stats["sim_us"] / 1e6,
            events=stats["events"], plan_operations=stats["ops"], library_basic_blocks_executed=stats["steps"],
            faults_injected=faults, probes={k: v for k, v in stats["counters"].items() if k not in faults},
            distinct_states=stats["states"], state_measure=cfg["state_measure"], runs_by_profile=stats["per_profile"],
            real_components=cfg["real"], stubbed_components=cfg["stubs"], determinism=det, exploration_wall_s=round(stats["wall"], 2),
            build_wall_s=round(t_build, 2), workers=WORKERS, groups_dropped=dropped)
        missing = [k for k in cfg.get("must_fire", []) if not stats["counters"].get(k)]
        if missing:
            evidence["coverage"]["never_fired"] = missing
            if not violations:
                print("warning: never fired: %s" % ", ".join(missing))
        evidence["violations"] = len(violations)
        if violations:
            evidence["coverage"]["violation"] = violations
        print("%s: %d runs (%d distinct and non-trivial), %d states, %.1f simulated s, faults %s" %
              (prop, stats["runs"], stats["distinct"], stats["states"], stats["sim_us"] / 1e6, json.dumps(faults)))
        return finish(evidence, t0, code)
    except (Broken, Rejected, subprocess.TimeoutExpired) as e:
        print("ERROR of the check: %s" % e)
        evidence["coverage"] = dict(evaluations=0, distinct_nontrivial=0, rule=cfg["rule"], samples=["no answer: %s" % str(e)[:500]])
        finish(evidence, t0, 2)
        return 2
    finally:
        scratch.close()


def finish(evidence, t0, code):
    evidence["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", evidence["property"] + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(p + ".tmp", p)
    return code


def replay(path, verbose):
    text = open(path).read()
    m = re.match(r"# property (\S+) world (\S+) profile (\S+) seed (\d+)\n# class (\S+)", text)
    b = Builder()
    try:
        binary, dropped = b.world(m.group(2))
    except Rejected as e:
        dropped, binary = {"*": str(e)}, None
    if m.group(3) == "build":
        print(json.dumps(dropped) if dropped else "the schemas are accepted")
        return 1 if dropped else 0
    c, h = run_plan(binary, m.group(3), path, verbose)
    print("expected %s, got %s, hash %s" % (m.group(5), c, h))
    if c is None:
        return 0
    print("VIOLATION property=%s replay=%s" % (m.group(1), path))
    return 1


def setup():
    for t in ("g++", "clang++", "bison", "re2c"):
        if not shutil.which(t):
            print("missing tool " + t)
            return 1
    if not glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"):
        print("missing abseil")
        return 1
    os.makedirs(CACHE, exist_ok=True)
    print("ok")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        sys.exit(setup())
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1], "-v" in a))
    if a[:1] == ["profiles"]:
        for k, v in PROPS.items():
            print(k, v["world"], v["batches"])
        sys.exit(0)
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
