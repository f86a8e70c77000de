#!/usr/bin/env python3
"""Runs the checks of /verif/MANIFEST.json.

  vp.py setup                 build the driver from /repo's working tree, compile the TLC overrides
  vp.py check ID [TIER]       decide one property (TIER: quick, the default, or thorough)
  vp.py explore PROFILE N     debugging: replay N generated scripts, list every rejected step
  vp.py replay FILE           re-run one saved violation
"""
import concurrent.futures as cf
import fcntl, filecmp, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
sys.path.insert(0, os.path.join(VERIF, "tools"))
JOBS = max(2, min(8, os.cpu_count() or 2))


class Error(Exception):
    """The check itself could not run: exit 2, no verdict."""


# ------------------------------------------------------------------ building
PROBES = ["simprobe"]   # builds that may fail without harm to the others


def mirror(src, dst):
    """Copies src to dst, touching only files whose content differs."""
    keep = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            a, b = os.path.join(root, f), os.path.join(dst, rel, f)
            keep.add(os.path.normpath(b))
            if not os.path.exists(b) or not filecmp.cmp(a, b, shallow=False):
                shutil.copyfile(a, b)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.join(root, f))
            if p not in keep:
                os.remove(p)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    """Brings .build up to date with /repo and /verif; safe to call concurrently."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        tree = os.path.join(BUILD, "tree")
        mirror(os.path.join(REPO, "src"), os.path.join(tree, "src"))
        mirror(os.path.join(REPO, "config"), os.path.join(tree, "config"))
        if os.path.isdir(os.path.join(REPO, "eval")):
            mirror(os.path.join(REPO, "eval"), os.path.join(tree, "eval"))
        a, b = os.path.join(REPO, "CMakeLists.txt"), os.path.join(tree, "CMakeLists.txt")
        if not os.path.exists(b) or not filecmp.cmp(a, b, shallow=False):
            shutil.copyfile(a, b)
        cls = os.path.join(BUILD, "cls")
        srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*", "*.java")))
        stamp = os.path.join(cls, "stamp")
        text = "".join(open(s).read() for s in srcs)
        if not os.path.exists(stamp) or open(stamp).read() != text:
            os.makedirs(cls, exist_ok=True)
            r = sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", cls] + srcs)
            if r.returncode:
                raise Error("javac failed:\n" + r.stdout)
            open(stamp, "w").write(text)
        bld = os.path.join(BUILD, "cmake")
        if not os.path.exists(os.path.join(bld, "build.ninja")):
            r = sh(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bld, "-G", "Ninja",
                    "-DEKF_CAL_DIR=" + tree, "-DCMAKE_CXX_FLAGS=-O1 -g0 -w"])
            if r.returncode:
                raise Error("cmake failed:\n" + r.stdout[-4000:])
        # a part of the driver that no longer fits the tree's interfaces is left out: scripts
        # that need it are refused, the others still decide their properties
        skip_file, skip, args = os.path.join(bld, "skipped"), [], ["driver", "sim"] + PROBES
        if os.path.exists(skip_file):
            os.remove(skip_file)
            sh(["cmake", "-DSKIP=", bld])
        for _ in range(4):
            r = sh(["ninja", "-C", bld, "-k", "0"] + args)
            if not r.returncode:
                break
            failed = re.findall(r"FAILED: (\S+)", r.stdout)
            parts = {m[1] for f in failed for m in [re.search(r"driver\.dir/(\w+)\.cpp\.o", f)] if m}
            if any("ekfcal.dir" in f or "core.dir" in f or "sim.dir" in f for f in failed) or "main" in parts:
                raise Error("build failed:\n" + r.stdout[-6000:])
            probes = [q for q in ("simprobe", "rosprobe") if q in args and any(q in f for f in failed)]
            for q in probes:
                args.remove(q)
                exe = os.path.join(bld, q)
                if os.path.exists(exe):
                    os.remove(exe)
            if not probes and not parts:
                raise Error("build failed:\n" + r.stdout[-6000:])
            skip = sorted(set(skip) | parts)
            print("not built: %s\n%s" % (" ".join(failed), "\n".join(
                x for x in r.stdout.splitlines() if ": error:" in x)[:800]), file=sys.stderr)
            if skip:
                open(skip_file, "w").write(" ".join(skip))
                sh(["cmake", "-DSKIP=" + ";".join(skip), bld])
        else:
            raise Error("build failed:\n" + r.stdout[-6000:])
    return {"driver": os.path.join(bld, "driver"), "sim": os.path.join(bld, "sim"),
            "probe": os.path.join(bld, "simprobe"), "ros": os.path.join(bld, "rosprobe"),
            "cls": cls, "config": os.path.join(tree, "config"), "eval": os.path.join(tree, "eval")}


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        self.fails = [x.split("|")[1:] for x in re.findall(r'^"(FAIL\|.*)"$', text, re.M)]
        m = re.search(r'^"REACHED\|(\d+)\|(\d+)"$', text, re.M)
        self.reached = m is not None and int(m[1]) == int(m[2]) + 1


def tlc(cls, module, cfg, work, env=None, args=(), heap="2g", timeout=850, workers=1):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    path = os.path.join(meta, "m.cfg")
    open(path, "w").write(cfg)
    libs = ":".join(sorted(d for d in glob.glob(SPEC + "/*") if os.path.isdir(d)))
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:ekfnum.Num",
           "-DTLA-Library=" + libs,
           "-cp", cls + ":" + TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
           "tlc2.TLC", "-deadlock", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", meta] + list(args) + ["-config", path, os.path.join(SPEC, module)]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh(cmd, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Error("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.stdout, r.returncode)


# ------------------------------------------------------------------ pipeline
class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.bin = build()
        self.work = tempfile.mkdtemp(prefix="run", dir=BUILD)
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = {}
        self.samples = []
        self.violations = []     # (what, replay path)
        self.known = []
        self.notes = []

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def generate(ctx, module, profile, depth, count, seed):
    """count scripts of one profile, as lists of lines, from the specification."""
    out = tempfile.mkdtemp(prefix="gen", dir=ctx.work)
    cfg = 'SPECIFICATION Spec\nCONSTANT PROFILE = "%s"\nCONSTANT DEPTH = %d\n' % (profile, depth)
    if count == 0:
        # every behaviour up to the depth
        r = tlc(ctx.bin["cls"], module, cfg, ctx.work, env={"OUT": out})
        if "No error has been found" not in r.text:
            raise Error("generator %s/%s:\n%s" % (module, profile, r.text[-3000:]))
        ctx.states += r.distinct
    else:
        r = tlc(ctx.bin["cls"], module, cfg, ctx.work, env={"OUT": out},
                args=["-simulate", "num=1", "-depth", str((depth + 3) * count), "-seed", str(seed)])
    files = sorted(glob.glob(out + "/*.script"), key=lambda f: int(re.findall(r"-(\d+)\.script", f)[0]))
    if len(files) < count:
        raise Error("generator %s/%s made %d of %d scripts:\n%s" %
                    (module, profile, len(files), count, r.text[-3000:]))
    m = re.search(r"(\d+) states checked", r.text)
    ctx.transitions += int(m[1]) if m else 0
    return [open(f).read().splitlines() for f in (files[:count] if count else files)]


def drive(ctx, lines, name, limit=60):
    """Runs the driver on a script; returns (trace path, error or None)."""
    d = tempfile.mkdtemp(prefix=name, dir=ctx.work)
    sp, tp = os.path.join(d, "script"), os.path.join(d, "trace")
    open(sp, "w").write("\n".join(lines) + "\n")
    scratch = os.path.join(d, "scratch")
    os.makedirs(scratch)
    err = os.path.join(d, "err")
    exe = [ctx.bin["driver"]]
    if json.loads(lines[0]).get("driver") == "eval":
        exe = ["python3-vt", os.path.join(VERIF, "harness", "eval_ops.py")]
        limit = 300
    try:
        with open(err, "w") as ef:
            r = subprocess.run(exe + [sp, tp, scratch], stdout=subprocess.DEVNULL,
                               stderr=ef, timeout=limit, cwd=scratch,
                               env=dict(os.environ, EKF_CONFIG=ctx.bin["config"], EKF_SIM=ctx.bin["sim"],
                                        EKF_EVAL=ctx.bin["eval"], PYTHONDONTWRITEBYTECODE="1",
                                        EKF_SIMPROBE=ctx.bin["probe"], EKF_ROSPROBE=ctx.bin["ros"]))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    tail = open(err, errors="replace").read().splitlines()[-6:]
    shutil.rmtree(scratch, ignore_errors=True)
    if rc == 2:
        raise Error("driver refused a script: " + "\n".join(tail))
    return tp, (None if rc == 0 else "driver ended with %s after\n%s" % (rc, "\n".join(tail)))


def validate(ctx, module, trace, active, invariant=True):
    cfg = ("SPECIFICATION Spec\nCONSTANT ACTIVE = {%s}\n%sPOSTCONDITION Reached\n" %
           (", ".join('"%s"' % p for p in sorted(active)), "INVARIANT Conforms\n" if invariant else ""))
    r = tlc(ctx.bin["cls"], module, cfg, ctx.work, env={"TRACE": trace})
    if not r.reached and not r.fails:
        if re.search(r"^Error: ", r.text, re.M) and not re.search("OutOfMemory|heap space", r.text):
            if os.environ.get("VERIF_DEBUG"):
                print(r.text[-3000:])
            # the recorded run cannot be read as a behaviour at all
            r.fails = [[sorted(active)[0], "not a behaviour of the specification", str(r.distinct)]]
            return r
        raise Error("TLC could not evaluate %s on %s:\n%s" % (module, trace, r.text[-3000:]))
    return r


def split_news(lines):
    """A chunk of scripts back into its sessions: (first trace line, last trace line, lines)."""
    starts = [k for k, l in enumerate(lines) if json.loads(l)["op"] in ("new", "session")] + [len(lines)]
    return [(a + 1, b, lines[a:b]) for a, b in zip(starts, starts[1:])]


def judge(ctx, module, lines, active, name):
    """Replays one chunk; returns (TlcResult, trace, error)."""
    trace, err = drive(ctx, lines, name)
    if err:
        return None, trace, err
    return validate(ctx, module, trace, active), trace, None


def save_replay(pid, tag, module, lines, what):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, tag + ".json")
    json.dump({"property": pid, "module": module, "what": what, "script": lines}, open(p, "w"), indent=1)
    return p


def trace_campaign(ctx, pid, module, gen, plan, chunk=6):
    """plan: [(profile, depth, scripts)].  Generate, replay, validate, confirm."""
    gens = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for k, (profile, depth, count) in enumerate(plan):
            # several generator runs, so that scripts come from different seeds
            per = max(1, min(count, 40))
            for part in range((count + per - 1) // per if count else 1):
                n = min(per, count - part * per)
                gens.append((profile, ex.submit(generate, ctx, gen, profile, depth, n,
                                                ctx.seed * 1000003 + k * 1009 + part * 31)))
        scripts = [(profile, s) for profile, g in gens for s in g.result()]
    fixed = []
    chunks, cur = [], []
    for p, s in scripts:
        if cur and (cur[0][0] != p or len(cur) >= chunk):
            chunks.append(cur); cur = []
        cur.append((p, s))
    if cur:
        chunks.append(cur)

    def one(item):
        k, c = item
        lines = [l for _, s in c for l in s]
        return c, lines, judge(ctx, module, lines, {pid}, "c%d_" % k)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, enumerate(chunks)))
    for c, lines, (r, trace, err) in results:
        if r is not None:
            ctx.states += r.distinct
            ctx.transitions += r.generated
            ctx.traces += len(c)
            ctx.events += len(lines)
            for l in lines:
                o = json.loads(l)["op"]
                ctx.ops[o] = ctx.ops.get(o, 0) + 1
            if len(ctx.samples) < 3:
                ctx.samples.append({"profile": c[0][0], "script": [json.loads(x) for x in c[0][1][:12]]})
        if r is not None and not r.fails:
            shutil.rmtree(os.path.dirname(trace), ignore_errors=True)
            continue
        confirm(ctx, pid, module, c, lines, r, err)
        if len(ctx.violations) >= 3:
            break


def describe(r, lines):
    f = r.fails[0]
    k = int(f[2]) - 1
    return "%s: %s at step %d: %s" % (f[0], f[1], k + 1, lines[k] if 0 <= k < len(lines) else "?")


def confirm(ctx, pid, module, c, lines, r, err):
    """Isolates the failing script and repeats the rejection before believing it."""
    for p, s in c:
        r1, _, e1 = judge(ctx, module, s, {pid}, "iso")
        if e1 or (r1 and r1.fails):
            what = e1 if e1 else describe(r1, s)
            k = len(ctx.violations)
            ctx.violations.append((what, save_replay(pid, "%s-%d" % (p, k), module, s, what)))
            return
    r1, _, e1 = judge(ctx, module, lines, {pid}, "rep")
    if e1 or (r1 and r1.fails):
        what = e1 if e1 else describe(r1, lines)
        k = len(ctx.violations)
        ctx.violations.append((what, save_replay(pid, "%s-%d" % (c[0][0], k), module, lines, what)))
        return
    raise Error("a rejection did not repeat: " + (err or str(r.fails[:3])))


def model(ctx, pid, module, cfg, args=(), heap="8g", timeout=800, workers=4):
    """Exhaustive check of a bounded model."""
    r = tlc(ctx.bin["cls"], module, cfg, ctx.work, args=args, heap=heap, timeout=timeout, workers=workers)
    if "No error has been found" not in r.text:
        raise Error("model %s is not accepted by TLC:\n%s" % (module, r.text[-4000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.notes.append("%s: %d distinct states exhaustively" % (module, r.distinct))


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
        if m and m[1] == pid:
            out.append(m[2])
    return out


def check(pid, tier):
    import plans
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(tier, seed)
    shutil.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)
    try:
        plan = plans.PLANS[pid]
        for step in plan["steps"](tier):
            kind = step[0]
            if kind == "trace":
                trace_campaign(ctx, pid, step[1], step[2], step[3], *(step[4:]))
            elif kind == "model":
                model(ctx, pid, *step[1:])
            if ctx.violations:
                break
        for what in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
              "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                           "traces_validated_against_impl": ctx.traces,
                           "events_validated": ctx.events, "operations": ctx.ops,
                           "notes": ctx.notes, "samples": ctx.samples},
              "wall_s": round(time.time() - t0, 1), "violations": len(ctx.violations),
              "assumptions": plan.get("assumptions", [])}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for what, path in ctx.violations:
            print(what)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        if not ctx.violations:
            print("OK property=%s traces=%d events=%d states=%d wall=%.0fs" %
                  (pid, ctx.traces, ctx.events, ctx.states, time.time() - t0))
        return 1 if ctx.violations else 0
    finally:
        ctx.close()


def explore(profile, n, depth, active, module="filter/FilterTrace.tla", gen="filter/FilterGen.tla"):
    ctx = Ctx("quick", int(os.environ.get("VERIF_SEED", "1")))
    hist = {}
    try:
        scripts = generate(ctx, gen, profile, depth, n, ctx.seed)

        def one(s):
            trace, err = drive(ctx, s, "x")
            if err:
                return s, None, err
            return s, validate(ctx, module, trace, active, invariant=False), trace
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, r, x in ex.map(one, scripts):
                if r is None:
                    hist.setdefault(("crash", x.splitlines()[-1]), []).append((s, 0))
                    continue
                for f in r.fails:
                    hist.setdefault((f[0], f[1]), []).append((s, int(f[2])))
        for k, v in sorted(hist.items()):
            s, i = min(v, key=lambda x: x[1])
            print("%-40s %5d  first: %s" % (k, len(v), s[i - 1] if i else ""))
            d = "/tmp/explore"
            os.makedirs(d, exist_ok=True)
            open("%s/%s.script" % (d, re.sub(r"\W+", "_", "_".join(k))[:60]), "w").write("\n".join(s[:i] if i else s) + "\n")
        print("scripts", len(scripts), "failures", sum(len(v) for v in hist.values()))
    finally:
        ctx.close()


def main(a):
    try:
        if a[:1] == ["setup"]:
            build()
            return 0
        if a[:1] == ["check"]:
            import plans
            if "rosprobe" in plans.PLANS.get(a[1], {}).get("builds", ()):
                PROBES.append("rosprobe")
            tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
            return check(a[1], tier)
        if a[:1] == ["explore"]:
            PROBES.append("rosprobe")
            act = a[4].split(",") if len(a) > 4 else ["C%02d" % k for k in range(1, 40)]
            mods = {"filter": ("filter/FilterTrace.tla", "filter/FilterGen.tla"),
                    "math": ("math/MathTrace.tla", "math/MathGen.tla"),
                    "log": ("log/LogTrace.tla", "log/LogGen.tla"),
                    "track": ("track/TrackTrace.tla", "track/TrackGen.tla"),
                    "eval": ("eval/EvalTrace.tla", "eval/EvalGen.tla"),
                    "config": ("config/ConfigTrace.tla", "config/ConfigGen.tla"),
                    "vision": ("vision/VisionTrace.tla", "vision/VisionGen.tla"),
                    "sim": ("sim/SimTrace.tla", "sim/SimGen.tla")}
            fam, _, prof = a[1].rpartition(":")
            explore(prof, int(a[2]), int(a[3]) if len(a) > 3 else 40, act, *mods[fam or "filter"])
            return 0
        if a[:1] == ["replay"]:
            j = json.load(open(a[1]))
            PROBES.append("rosprobe")
            ctx = Ctx("quick", 1)
            r, t, e = judge(ctx, j["module"], j["script"], {j["property"]}, "r")
            print(e or (describe(r, j["script"]) if r.fails else "accepted"))
            ctx.close()
            return 1 if (e or r.fails) else 0
        print(__doc__)
        return 2
    except Error as x:
        print("ERROR:", x)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
