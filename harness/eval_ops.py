#!/usr/bin/env python3
"""Runs the evaluation tools of the repository (eval/) on generated sets of runs and records what they did.

  eval_ops.py SCRIPT TRACE SCRATCH     (EKF_EVAL: directory of the tools)
"""
import argparse, copy, json, os, random, shutil, struct, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
import numpy, yaml
from scipy.spatial.transform import Rotation  # loaded here once, for the tools

HERE = os.path.dirname(os.path.abspath(__file__))


def jr(*xs):
    out = []
    for x in xs:
        out += list(struct.unpack(">ii", struct.pack(">d", float(x) + 0.0)))
    return out


def tools(scratch):
    """The tools, where the program they start is a stand-in that writes down how it was started."""
    ws = os.path.join(scratch, "ws")
    ev = os.path.join(ws, "src", "ekf_cal", "eval")
    shutil.copytree(os.environ["EKF_EVAL"], ev)
    sim = os.path.join(ws, "build", "ekf_cal", "sim")
    os.makedirs(os.path.dirname(sim))
    with open(sim, "w") as f:
        f.write("#!/bin/sh\nd=$(dirname \"$0\")\n"
                "printf '%s\\n' \"$#\" \"$1\" \"$2\" > \"$(mktemp \"$d/call.XXXXXX\")\"\n"
                "echo \"ran $1\"\n[ -f \"$d/noisy\" ] && echo \"oops $1\" >&2\nexit 0\n")
    os.chmod(sim, 0o755)
    return ev, os.path.dirname(sim)


def call(ev, code, arg):
    """One call of a tool in a process of its own; returns its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(null, k)
            sys.path[:0] = [ev, os.path.join(HERE, "pystub")]
            env = {"a": arg, "A": argparse.Namespace(**arg["args"])}
            try:
                exec(code, env)
                out = [env["r"], None]
            except BaseException as x:
                out = [None, "%s: %s" % (type(x).__name__, x)]
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else (None, "the tool ended without a result")


def make_config(o, rng, d, name):
    sim = {"seed": o["seed"], "number_of_runs": o["n"], "run_number": o["start"], "max_time": 2.5, "truth_type": "cyclic",
           "pos_amplitude": rng.random(), "no_errors": False}
    ros = {"debug_log_level": 2, "imu_list": ["A", "B"], "imu": {"A": {"rate": rng.random(), "variance": [rng.random() for _ in range(3)]},
           "B": {"rate": 200.0}}, "camera_list": [], "sim_params": sim}
    top = {"/EkfCalNode": {"ros__parameters": ros}}
    f = os.path.join(d, name + ".yaml")
    with open(f, "w") as s:
        yaml.dump(top, s)
    return f, top


ARGS = {"inputs": [], "jobs": None, "runs": None, "time": None, "ext": "png", "no_plot": True, "embed": False, "rate_line": False, "light": False}


def split(cfg):
    """A configuration as the values a run may have of its own, and the rest."""
    c = copy.deepcopy(cfg)
    s = c["/EkfCalNode"]["ros__parameters"]["sim_params"]
    own = {k: s.pop(k, None) for k in ("seed", "number_of_runs", "run_number", "max_time")}
    return own, json.dumps(c, sort_keys=True)


def shown(f, d):
    """One file of a run, as the specification compares it."""
    if not os.path.isfile(f):
        return {"path": os.path.relpath(f, d), "there": False}
    own, rest = split(yaml.safe_load(open(f)))
    return {"path": os.path.relpath(f, d), "there": True, "seed": own["seed"], "runs": own["number_of_runs"], "number": own["run_number"],
            "time": jr(own["max_time"]), "rest": rest}


SET = """
import os, run, utilities
g = [run.generate_mc_from_yaml(os.path.abspath(f), runs=A.runs, time=A.time) for f in A.inputs]
l = utilities.generate_mc_lists(A)
r = [[[os.path.abspath(y) for y in x] for x in g], [[os.path.abspath(y) for y in x] for x in l]]
"""
LISTS = "import os, utilities\nr = [[os.path.abspath(y) for y in x] for x in utilities.generate_mc_lists(A)]\n"
JOBS = "import run\nrun.add_jobs(A)\nr = 0\n"
STATS = "import stats\nstats.calc_sim_stats(a['sets'], A)\nr = 0\n"


def place(o, d):
    if o.get("sub"):
        d = os.path.join(d, "deeper", "x")
        os.makedirs(d, exist_ok=True)
    return d


def op_set(o, scratch, ev):
    rng = random.Random(o["fill"])
    d = place(o, scratch)
    f, top = make_config(o, rng, d, "conf")
    args = dict(ARGS, inputs=[f], runs=o["over"] or None, time=float(o["time"]) if o["time"] else None)
    if o["first"]:
        call(ev, SET, {"args": dict(args, runs=o["first"])})     # an earlier set of another size is already there
    got, err = call(ev, SET, {"args": args})
    if err:
        return {"err": err}
    one = [shown(x, d) for x in got[0][0]]
    again, err = call(ev, SET, {"args": args})
    two = [shown(x, d) for x in again[0][0]] if not err else []
    own, rest = split(top)
    return {"err": "", "made": one, "again": two, "found": [os.path.relpath(x, d) for x in got[1][0]],
            "top": dict(shown(f, d), seed=own["seed"], time=jr(own["max_time"]), rest=rest)}


def op_runs(o, scratch, ev, simdir):
    rng = random.Random(o["fill"])
    d = place(o, scratch)
    fs = [make_config(dict(o, n=o["n"] if k == 0 else rng.randint(1, 4)), rng, d, "conf%d" % k) for k in range(o["files"])]
    args = dict(ARGS, inputs=[f for f, _ in fs], runs=o["over"] or None, time=float(o["time"]) if o["time"] else None, jobs=o["jobs"])
    if o["err"]:
        open(os.path.join(simdir, "noisy"), "w").close()
    if o["first"]:
        call(ev, JOBS, {"args": args})
    for c in os.listdir(simdir):
        if c.startswith("call."):
            os.remove(os.path.join(simdir, c))
    _, err = call(ev, JOBS, {"args": args})
    found, err2 = call(ev, LISTS, {"args": args})
    calls = []
    for c in sorted(os.listdir(simdir)):
        if c.startswith("call."):
            n, y, out = (open(os.path.join(simdir, c)).read().split("\n") + ["", "", ""])[:3]
            so, se = os.path.join(out, "sim.stdout"), os.path.join(out, "sim.stderr")
            calls.append({"n": int(n), "yaml": os.path.relpath(y, d), "dir": os.path.relpath(out, d), "there": os.path.isdir(out),
                          "out": os.path.isfile(so) and open(so).read() == "ran %s\n" % y,
                          "err": os.path.isfile(se) and open(se).read() == "oops %s\n" % y})
    for x in ("noisy",):
        p = os.path.join(simdir, x)
        if os.path.exists(p):
            os.remove(p)
    return {"err": err or err2 or "", "err0": o["err"], "calls": calls, "found": [os.path.relpath(x, d) for y in found or [] for x in y],
            "dirs": [os.path.relpath(x.split(".yaml")[0], d) for y in found or [] for x in y]}


def table(f, cols):
    names = list(cols)
    with open(f, "w") as s:
        s.write(",".join(names) + "\n")
        for row in zip(*(cols[k] for k in names)):
            s.write(",".join("%.17g" % x for x in row) + "\n")


def op_stats(o, scratch, ev):
    rng = random.Random(o["fill"])
    base = place(o, scratch)
    num = lambda: round(rng.uniform(-5, 5), 3)
    runs, rec = [], []
    top = os.path.join(base, "conf")
    os.makedirs(os.path.join(top, "runs"), exist_ok=True)
    ids = list(range(1, o["imus"] + o["cams"] + o["gpss"] + 1))
    ids = [k + o["many"] for k in ids]
    imu, cam, gps = ids[:o["imus"]], ids[o["imus"]:o["imus"] + o["cams"]], ids[o["imus"] + o["cams"]:]
    for r in range(o["n"]):
        d = os.path.join(top, "runs", "conf_%d" % r) if o["n"] > 1 else top
        os.makedirs(d, exist_ok=True)
        runs.append(d + ".yaml")

        def times(n, lo, hi):
            t = sorted({round(rng.uniform(lo, hi), 3) for _ in range(n)} | {lo})
            return t
        tt = times(o["rows"] + 2, 0.0, 4.0)

        def three(pre, n, k=3):
            return {"%s_%d" % (pre, i): [num() for _ in range(n)] for i in range(k)}

        def vec(cols, pre):
            return [jr(*cols["%s_%d" % (pre, i)]) for i in range(3)]
        truth = {"time": tt}
        kinds = ["body_pos", "body_vel", "body_acc", "body_ang_vel", "body_ang_acc"]
        for k in kinds:
            truth.update(three(k, len(tt)))
        truth.update(three("body_ang_pos", len(tt), 4))
        for k in imu:
            for p in ("imu_pos_%d" % k, "imu_acc_bias_%d" % k, "imu_gyr_bias_%d" % k):
                truth.update(three(p, len(tt)))
            truth.update(three("imu_ang_pos_%d" % k, len(tt), 4))
        for k in cam:
            truth.update(three("cam_pos_%d" % k, len(tt)))
            truth.update(three("cam_ang_pos_%d" % k, len(tt), 4))
        if gps:
            ref = [num() for _ in range(4)]
            for n, v in zip(("ref_lat", "ref_lon", "ref_alt", "ref_heading"), ref):
                truth[n] = [v] * len(tt)
        table(os.path.join(d, "body_truth.csv"), truth)
        # estimates start at zero, or before the truth, and may end after it
        est = lambda: times(rng.randint(2, o["rows"]), -0.5 if o["early"] else 0.0, 5.0)
        te = est()
        body = {"time": te}
        for k in kinds:
            body.update(three(k, len(te)))
        body.update(three("body_ang_pos", len(te), 4))
        body["state_size"] = [rng.randint(18, 60) for _ in te]
        table(os.path.join(d, "body_state.csv"), body)
        pairs = [{"name": "body_0_err_" + k[5:], "tt": jr(*tt), "et": jr(*te), "tv": vec(truth, k), "ev": vec(body, k)} for k in kinds]
        means = [{"name": "body_0_states", "v": jr(*body["state_size"])}]
        for k in imu:
            t = est()
            c = {"time": t}
            for p in ("imu_pos", "imu_acc_bias", "imu_gyr_bias"):
                c.update(three(p, len(t)))
            c.update(three("imu_ang_pos", len(t), 4))
            c["duration_0"] = [rng.randint(1, 900) for _ in t]
            table(os.path.join(d, "imu_%d.csv" % k), c)
            for p, n in (("imu_pos", "err_pos"), ("imu_acc_bias", "err_acc_bias"), ("imu_gyr_bias", "err_gyr_bias")):
                pairs.append({"name": "imu_%d_%s" % (k, n), "tt": jr(*tt), "et": jr(*t), "tv": vec(truth, "%s_%d" % (p, k)), "ev": vec(c, p)})
            means.append({"name": "imu_%d_duration" % k, "v": jr(*c["duration_0"])})
        for k in cam:
            t = est()
            c = {"time": t}
            c.update(three("cam_pos", len(t)))
            c.update(three("cam_ang_pos", len(t), 4))
            table(os.path.join(d, "msckf_%d.csv" % k), c)
            pairs.append({"name": "mskcf_%d_err_pos" % k, "tt": jr(*tt), "et": jr(*t), "tv": vec(truth, "cam_pos_%d" % k), "ev": vec(c, "cam_pos")})
        refs = []
        for k in gps:
            n = rng.randint(3, o["rows"] + 4)
            ready = rng.randint(0, n - 2)
            c = {"time": [0.1 * i for i in range(n)], "is_initialized": [1 if i >= ready else 0 for i in range(n)]}
            for x in ("ref_lat", "ref_lon", "ref_alt", "ref_heading"):
                v = num()
                c[x] = [0.0 if i <= ready else v for i in range(n)]
            table(os.path.join(d, "gps_%d.csv" % k), c)
            refs.append({"id": "gps_%d" % k, "before": ready, "est": jr(*[c[x][-1] for x in ("ref_lat", "ref_lon", "ref_alt", "ref_heading")]), "true": jr(*ref)})
        rec.append({"pairs": pairs, "means": means, "refs": refs})
    _, err = call(ev, STATS, {"args": dict(ARGS), "sets": [runs]})
    f = os.path.join(top, "stats.txt")
    rows = []
    if os.path.isfile(f):
        for l in open(f).read().splitlines()[1:]:
            k, v = l.rsplit(": ", 1)
            m, s = v.split(",")
            rows.append({"name": k, "mean": jr(float(m)), "std": jr(float(s))})
    return {"err": err or "", "runs": rec, "rows": rows}


def main(script, trace, scratch):
    ev, simdir = tools(scratch)
    out = open(trace, "w")
    for k, l in enumerate(open(script)):
        o = json.loads(l)
        d = os.path.join(scratch, "op%d" % k)
        os.makedirs(d)
        e = dict(o)
        if o["op"] == "set":
            e.update(op_set(o, d, ev))
        elif o["op"] == "runs":
            e.update(op_runs(o, d, ev, simdir))
        elif o["op"] == "stats":
            e.update(op_stats(o, d, ev))
        elif o["op"] != "session":
            print("unknown op", o["op"], file=sys.stderr)
            return 2
        shutil.rmtree(d)
        out.write(json.dumps(e) + "\n")
    out.close()
    return 0


if __name__ == "__main__":
    sys.exit(main(*sys.argv[1:]))
