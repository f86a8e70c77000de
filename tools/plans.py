"""Which exploration decides which property.

PLANS[id]["steps"](tier) lists the steps of a check:
  ("trace", trace module, generator module, [(profile, depth, scripts), ...][, scripts per chunk])
  ("model", module, configuration text)
"""
FT, FG = "filter/FilterTrace.tla", "filter/FilterGen.tla"


def filt(*profiles):
    """profiles: (name, depth, quick scripts).  Thorough: more and longer scripts."""
    def steps(tier):
        if tier == "thorough":
            return [("trace", FT, FG, [(p, d, n * 8) for p, d, n in profiles] +
                                      [(p, d * 2, n * 2) for p, d, n in profiles])]
        return [("trace", FT, FG, list(profiles))]
    return steps


A_FILTER = [
    "the exported estimate and covariance are the filter's whole state besides what the specification tracks",
    "numeric agreement is decided at 1e-7 relative tolerance in double precision",
]
PLANS = {
    "C01": {"steps": filt(("layout", 40, 96), ("mix", 40, 24))},
    "C02": {"steps": filt(("layout", 40, 96), ("clones", 40, 48))},
    "C03": {"steps": filt(("dup", 40, 120))},
    "C04": {"steps": filt(("clock", 40, 120))},
    "C05": {"steps": filt(("predict", 40, 120))},
    "C06": {"steps": filt(("clones", 60, 120), ("mix", 40, 24), ("long", 84, 8))},
    "C07": {"steps": filt(("clones", 60, 120), ("msckf", 40, 24), ("long", 84, 8))},
    "C08": {"steps": filt(("look", 60, 144), ("longlook", 140, 12))},
    "C09": {"steps": filt(("kalman", 40, 144))},
    "C10": {"steps": filt(("vector", 40, 144))},
    "C11": {"steps": filt(("gpsinit", 50, 24), ("gpsinit", 24, 320), ("gps", 40, 48))},
    "C12": {"steps": filt(("gps", 40, 144), ("mix", 40, 24))},
    "C13": {"steps": filt(("imu", 40, 96), ("imu1", 40, 96))},
    "C14": {"steps": filt(("imu", 40, 96), ("imu1", 40, 96))},
    "C15": {"steps": filt(("board", 40, 144), ("mix", 40, 24))},
    "C16": {"steps": filt(("msckf", 40, 144), ("long", 84, 8))},
    "C20": {"steps": filt(("log", 40, 96))},
    "C25": {"steps": filt(("fej", 40, 144))},
}
MT, MG = "math/MathTrace.tla", "math/MathGen.tla"
LT, LG = "log/LogTrace.tla", "log/LogGen.tla"
A_CALLS = ["the functions depend on their arguments only"]
A_LOG = ["the file system stores what is written; the logger's file is read back after every call"]


def calls(mod, gen, profile, depth, n, chunk):
    return lambda tier: [("trace", mod, gen, [(profile, depth, n * (10 if tier == "thorough" else 1))], chunk)]


def sims(*profiles):
    """(trace module, generator, profile, depth, quick scripts, chunk, thorough factor)"""
    def steps(tier):
        return [("trace", t, g, [(p, d, n * (f if tier == "thorough" else 1))], c) for t, g, p, d, n, c, f in profiles]
    return steps


LOGMC = """SPECIFICATION Spec
CONSTANTS STEPS = %d
TMAX = %d
RATES = {0, 1, 4, 8, 33}
INVARIANTS HeaderOnce NothingWhenOff InOrder Limit NoLimit FirstKept
PROPERTY OnlyGrows
"""


def c19(tier):
    deep = tier == "thorough"
    return [("model", "log/LogMC.tla", LOGMC % ((6, 12) if deep else (5, 8))),
            ("trace", LT, LG, [("alldata", 7 if deep else 5, 0)], 150),
            ("trace", LT, LG, [("data", 60, 800 if deep else 120)], 10)]


def c21(tier):
    deep = tier == "thorough"
    return [("trace", LT, LG, [("alldebug", 5 if deep else 4, 0)], 250),
            ("trace", LT, LG, [("debug", 60, 400 if deep else 60)], 10)]


PLANS.update({
    "C17": {"steps": sims((MT, MG, "info", 60, 160, 5, 10), (MT, MG, "wide", 12, 16, 1, 10)), "assumptions": A_CALLS},
    "C19": {"steps": c19, "assumptions": A_LOG},
    "C21": {"steps": c21, "assumptions": A_LOG},
    "C26": {"steps": calls(MT, MG, "frames", 60, 160, 5), "assumptions": A_CALLS},
})
VT, VG = "vision/VisionTrace.tla", "vision/VisionGen.tla"
TT, TG = "track/TrackTrace.tla", "track/TrackGen.tla"
ST, SG = "sim/SimTrace.tla", "sim/SimGen.tla"
TRACKMC = """SPECIFICATION Spec
CONSTANTS FEATURES = {1, 2, 3}
FRAMES = %d
MAXLEN = %d
INVARIANTS Once Disjoint Accounted Lengths Short Consecutive Prompt Current
"""


def c18(tier):
    deep = tier == "thorough"
    return [("model", "track/TrackMC.tla", TRACKMC % ((5, 4) if deep else (4, 3))),
            ("trace", TT, TG, [("alltracks", 6 if deep else 5, 0)], 32),
            ("trace", TT, TG, [("tracks", 40, 800 if deep else 80)], 10), ("trace", TT, TG, [("stays", 90, 128 if deep else 16)], 2),
            ("trace", VT, VG, [("images", 30, 480 if deep else 48)], 3)]


A_SIM = ["the scatter of simulated errors is judged over the messages of one run with wide bounds",
         "numeric agreement is decided at the tolerances written in the specification"]
PLANS.update({
    "C18": {"steps": c18, "assumptions": ["tracks are read from the messages the tracker hands over; the filter is driven along"]},
    "C22": {"steps": calls(ST, SG, "msgs", 12, 96, 4), "assumptions": A_SIM},
    "C23": {"steps": calls(ST, SG, "traj", 12, 96, 4), "assumptions": A_SIM},
})
A_PROG = ["durations are at most three seconds of simulated time", "time spent (duration columns) is not compared"]


PLANS.update({
    "C24": {"steps": sims((FT, FG, "sensors", 50, 96, 6, 8), (ST, SG, "msgs", 12, 24, 4, 8),
                          (ST, SG, "twice", 5, 24, 1, 8), (MT, MG, "blocks", 60, 24, 5, 8), (ST, SG, "made", 4, 8, 1, 8),
                          (VT, VG, "images", 30, 16, 2, 8), (VT, VG, "boards", 20, 8, 1, 8)),
            "assumptions": A_FILTER + A_SIM},
    "C27": {"steps": sims((FT, FG, "mix", 60, 48, 6, 8), (FT, FG, "sensors", 50, 48, 6, 8), (FT, FG, "msckf", 40, 32, 6, 8),
                          (ST, SG, "twice", 5, 16, 1, 8), (ST, SG, "shipped", 5, 16, 1, 8), (ST, SG, "made", 5, 16, 1, 8)),
            "assumptions": A_FILTER + A_PROG},
    "C28": {"steps": sims((ST, SG, "made", 8, 56, 1, 8)), "assumptions": A_PROG},
})
A_IMG = ["images are rendered: windows over random textures; which features are found is the library's choice",
         "the driver sees the updates asked for by wrapping calls between object files at link time"]
PLANS["C29"] = {"steps": sims((VT, VG, "images", 30, 64, 3, 8), (VT, VG, "picks", 60, 24, 3, 8)), "assumptions": A_IMG}
PLANS["C30"] = {"steps": sims((VT, VG, "boards", 30, 36, 2, 8)), "assumptions": [
    "images of boards are rendered; positions are compared within 2.5 % of the distance, orientations within 0.04 rad"] + A_IMG[1:]}
PLANS["C31"] = {"steps": sims(("config/ConfigTrace.tla", "config/ConfigGen.tla", "read", 10, 40, 2, 8)), "assumptions": [
    "parts are seen through their constructors and setters, wrapped at link time in a separate build of the program",
    "keys without a usable default (lists of variances, lengths and sizes of boards) are always written"]}
PLANS["C32"] = {"steps": sims(("eval/EvalTrace.tla", "eval/EvalGen.tla", "sets", 7, 32, 1, 8)), "assumptions": [
    "plotting and csv-reading libraries are not installed here: stand-ins of the same interface are used (harness/pystub)",
    "the simulation program is a stand-in that writes down how it was started"]}
PLANS["C33"] = {"steps": sims(("config/ConfigTrace.tla", "config/ConfigGen.tla", "node", 10, 40, 2, 8)), "builds": ["rosprobe"], "assumptions": [
    "ROS 2 is not installed here: the node is built against a stand-in of rclcpp, cv_bridge and the messages (harness/rosstub)",
    "the stand-in delivers messages one at a time, as a single-threaded executor does; parameter types are as strict as rclcpp's",
    "parts are seen through their constructors and setters, wrapped at link time"]}
# every behaviour of the discrete filter with few sensors and a short clock
ALLPOL = '{"NONE", "ALL", "PRIMARY", "TIME", "ERROR"}'
FMC = """SPECIFICATION Spec
CONSTANTS STEPS = %d
TMAX = %d
LEN = 2
PERS = {1, 2}
ADT = 1
POLS = %s
KINDS = {%s}
%s
CHECK_DEADLOCK FALSE
"""


def fmc(steps, tmax, props, reg=False, pols=ALLPOL):
    return ("model", "filter/FilterMC.tla", FMC % (steps, tmax, pols, '"reg"' if reg else "", props))


def with_models(pid, quick, thorough):
    steps = PLANS[pid]["steps"]
    PLANS[pid]["steps"] = lambda tier: (thorough if tier == "thorough" else quick) + steps(tier)


PART = "INVARIANTS Partition Owners Groups"
with_models("C01", [fmc(3, 2, PART, True), fmc(4, 3, PART)], [fmc(4, 2, PART, True), fmc(6, 5, PART)])
with_models("C02", [fmc(4, 4, "PROPERTY C02"), fmc(2, 2, "PROPERTY C02", True)],
            [fmc(6, 5, "PROPERTY C02"), fmc(4, 2, "PROPERTY C02", True)])
with_models("C03", [fmc(3, 2, "PROPERTY C03", True)], [fmc(4, 3, "PROPERTY C03", True)])
with_models("C04", [fmc(6, 5, "PROPERTY C04")], [fmc(8, 6, "PROPERTY C04")])
with_models("C06", [fmc(6, 5, "PROPERTY C06")], [fmc(8, 6, "PROPERTY C06")])
with_models("C07", [fmc(6, 5, "INVARIANTS Bounded Ordered\nPROPERTY C07")],
            [fmc(8, 6, "INVARIANTS Bounded Ordered\nPROPERTY C07")])
for p in PLANS.values():
    p.setdefault("level", "model_checking")
    p.setdefault("assumptions", A_FILTER)
TECHNIQUE = "TLA+ specification checked with TLC; specification-generated behaviours replayed on the code and the recorded run checked as a trace of the specification"
NOTE = ("Every step of every replayed behaviour is compared with the specification's own successor state; "
        "behaviours are drawn from the specification by TLC's simulator with the given seed, so the claim "
        "covers the behaviours explored. Trusts TLC, the numeric operator overrides in java/, and the "
        "driver's export of the filter's public state.")
NOT_YET = {}
