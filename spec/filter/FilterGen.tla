------------------------------ MODULE FilterGen ------------------------------
(***************************************************************************)
(* Generates scripts for the conformance driver: behaviours of FilterCore  *)
(* in simulation mode, with a profile saying which operations are likely.  *)
(* The specification decides what may happen next (ids, clock, which       *)
(* frames can be looked up); numeric values are drawn by the driver from   *)
(* the seed in each operation.                                             *)
(***************************************************************************)
EXTENDS FilterCore, Json, IOUtils

CONSTANTS PROFILE, DEPTH
VARIABLES s, hist, aux
vars == <<s, hist, aux>>

(* (state-level on purpose: TLC evaluates a constant definition only once) *)
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Seed == Pick(1..1000000)
Chance(n, d) == Pick(1..d) <= n
Bit(b) == IF b THEN 1 ELSE 0
MaxIds == 9

(* ---- profiles: weights of operations and ranges of parameters ---- *)
Base == [pols |-> {"ALL", "PRIMARY", "TIME", "ERROR"}, roots |-> {0, 1}, fejs |-> {0},
         gis |-> {"CONSTANT"}, w |-> <<>>, pre |-> <<>>, grav |-> 2, stale |-> 6,
         imus |-> 2, gpss |-> 1, cams |-> 2, fids |-> 1, rates |-> {0}, maxlen |-> 4, minlen |-> 1, nfs |-> <<0, 1, 1, 2, 3, 6>>, via |-> FALSE]
Regs == <<"regimu", "reggps", "regcam", "regfid">>
Prof ==
  CASE PROFILE = "layout" ->
        [Base EXCEPT !.pols = Policies, !.imus = 3, !.gpss = 2, !.cams = 3, !.fids = 2,
           !.w = Regs \o Regs \o <<"dup", "predict", "predict", "frame", "frame", "frame", "setlen",
                                   "setcov", "setcov", "nudge", "kalman", "vec", "setlen">>,
           !.grav = 0]
    [] PROFILE = "dup" ->
        [Base EXCEPT !.pols = Policies, !.imus = 2, !.gpss = 2, !.cams = 2, !.fids = 2,
           !.w = Regs \o <<"dup", "dup", "dup", "predict", "frame", "setcov", "kalman", "nudge", "imu", "gps", "fid",
                          "step", "step", "step", "step", "msckf">>,
           !.grav = 5]
    [] PROFILE = "clock" ->
        [Base EXCEPT !.pols = Policies, !.stale = 3,
           !.w = Regs \o <<"predict", "predict", "predict", "predict", "local", "local", "frame",
                           "imu", "gps", "fid", "setcov", "nudge">>, !.grav = 5]
    [] PROFILE = "predict" ->
        [Base EXCEPT !.pols = Policies, !.grav = 9, !.imus = 2, !.cams = 2,
           !.w = Regs \o <<"predict", "predict", "predict", "predict", "predict", "predict", "setcov", "setbody",
                           "zero", "setnoise", "frame", "setbody", "setcov">>]
    [] PROFILE = "clones" ->
        [Base EXCEPT !.cams = 3, !.imus = 1, !.fids = 1, !.gpss = 0, !.grav = 4,
           !.w = <<"regcam", "regcam", "regimu", "predict", "predict", "predict", "predict", "frame", "frame", "frame",
                   "frame", "nudge", "setlen", "setbody", "predict", "frame", "predict", "frame", "regfid">>]
    [] PROFILE = "look" ->
        [Base EXCEPT !.cams = 3, !.imus = 1, !.gpss = 0, !.grav = 5,
           !.w = <<"regcam", "regcam", "predict", "predict", "frame", "frame", "nudge", "nudge", "look", "look",
                   "look", "look", "predict", "frame">>]
    [] PROFILE = "kalman" ->
        [Base EXCEPT !.grav = 5, !.imus = 2,
           !.w = Regs \o <<"kalman", "kalman", "kalman", "kalman", "kalman", "predict", "frame", "setcov", "setbody">>]
    [] PROFILE = "vector" ->
        [Base EXCEPT !.grav = 3, !.imus = 3, !.gpss = 3, !.cams = 3, !.fids = 3,
           !.w = Regs \o Regs \o <<"corr", "corr", "vec", "vec", "vec", "setvec", "setvec", "predict", "frame", "frame",
                                   "setbody", "nudge", "corr", "vec">>]
    [] PROFILE = "gpsinit" ->
        [Base EXCEPT !.gis = {"BASELINE", "ERROR"}, !.pols = {"NONE", "TIME"}, !.gpss = 1, !.imus = 1, !.cams = 1,
           !.fids = 0, !.grav = 0, !.pre = <<"reggps">>,
           !.w = <<"gpsinit", "gpsinit", "gpsinit", "gpsinit", "gpsinit", "gpsinit", "gpsinit", "gpsinit", "regimu", "setref", "regcam">>]
    [] PROFILE = "gps" ->
        [Base EXCEPT !.gpss = 2, !.grav = 6, !.pre = <<"reggps">>, !.fejs = {0},
           !.w = Regs \o <<"gps", "gps", "gps", "gps", "gps", "predict", "frame", "setbody", "setcov", "setref", "nudge", "corr">>]
    [] PROFILE = "imu" ->
        [Base EXCEPT !.imus = 2, !.grav = 3, !.pre = <<"regimu">>, !.cams = 1,
           !.w = <<"imu", "imu", "imu", "imu", "imu", "imu", "imu", "predict", "setcov", "nudge",
                   "regcam", "frame", "regimu", "reggps">>]
    [] PROFILE = "imu1" ->
        [Base EXCEPT !.imus = 1, !.grav = 3, !.pre = <<"regimu">>, !.cams = 1,
           !.w = <<"imu", "imu", "imu", "imu", "imu", "imu", "imu", "predict", "setcov", "nudge",
                   "regcam", "frame", "reggps", "corr">>]
    [] PROFILE = "board" ->
        [Base EXCEPT !.fids = 2, !.cams = 2, !.imus = 1, !.grav = 6, !.pre = <<"regcam", "regfid">>,
           !.w = Regs \o <<"fid", "fid", "fid", "fid", "fid", "fid", "predict", "frame", "setbody", "setcov", "nudge">>]
    [] PROFILE = "msckf" ->
        [Base EXCEPT !.cams = 2, !.imus = 1, !.gpss = 1, !.fids = 1, !.grav = 3, !.pre = <<"regcam", "setlen", "predict">>, !.maxlen = 6,
           !.rates = {0, 1000000, 1000000},
           !.w = <<"regcam", "regimu", "step", "step", "step", "step", "step", "step", "msckf", "msckf", "setcov">>]
    [] PROFILE = "long" ->   \* tracks of many frames, many tracks at once
        [Base EXCEPT !.cams = 1, !.imus = 1, !.gpss = 0, !.fids = 0, !.grav = 3, !.pols = {"ALL", "ALL", "ERROR"},
           !.pre = <<"regcam", "setlen", "local">> \o [j \in 1..18 |-> "step"], !.minlen = 16, !.maxlen = 26,
           !.nfs = <<1, 4, 12, 24>>,
           !.w = <<"step", "step", "step", "msckf", "msckf", "setcov">>]
    [] PROFILE = "longlook" ->   \* windows of many poses, asked about anywhere
        [Base EXCEPT !.cams = 2, !.imus = 0, !.gpss = 0, !.fids = 0, !.grav = 3,
           !.pre = <<"regcam", "regcam", "setlen", "local">> \o [j \in 1..30 |-> "step"], !.minlen = 12, !.maxlen = 26,
           !.w = <<"step", "look", "look", "look", "look", "nudge">>]
    [] PROFILE = "fej" ->
        [Base EXCEPT !.fejs = {0, 1}, !.gpss = 1, !.cams = 2, !.imus = 1, !.fids = 1, !.grav = 3,
           !.pre = <<"regcam", "regfid", "reggps", "setlen", "predict">>, !.maxlen = 6,
           !.w = <<"gps", "gps", "fid", "fid", "step", "step", "step", "msckf", "msckf", "corr", "setcov", "kalman">>]
    [] PROFILE = "mix" ->
        [Base EXCEPT !.pols = Policies, !.gis = {"CONSTANT", "BASELINE", "ERROR"}, !.fejs = {0, 1}, !.grav = 2,
           !.gpss = 2, !.cams = 2, !.imus = 2, !.fids = 2, !.maxlen = 6,
           !.w = Regs \o <<"imu", "imu", "imu", "gps", "gps", "fid", "fid", "step", "step", "step", "msckf",
                           "msckf", "setlen", "predict", "step", "imu">>]
    [] PROFILE = "sensors" ->
        [Base EXCEPT !.via = TRUE, !.pols = Policies, !.gis = {"CONSTANT", "CONSTANT", "BASELINE"}, !.grav = 5,
           !.gpss = 3, !.cams = 3, !.imus = 3, !.fids = 3, !.maxlen = 6, !.pre = <<"setlen">>,
           !.w = Regs \o <<"imu", "imu", "gps", "gps", "fid", "fid", "camframe", "camframe", "camframe", "msckf",
                           "nudge", "nudge", "setcov", "predict", "imu", "gps", "fid", "corr">>]
    [] PROFILE = "log" ->
        [Base EXCEPT !.grav = 3, !.gpss = 1, !.cams = 1, !.imus = 2, !.fids = 1, !.rates = {4, 50, 2000},
           !.pre = <<"regimu", "reggps", "regcam", "regfid", "setlen">>, !.maxlen = 6,
           !.w = <<"imu", "imu", "imu", "imu", "gps", "gps", "fid", "fid", "step", "step", "msckf", "predict">>]

(* ---- parameters ---- *)
Free(q) == (1..MaxIds) \ Ids(q)
SomeId(q) == Pick(Ids(q))
Later == s.cur + Pick({0, 1, 7, 16, 33, 64, 100, 200, 333, 512, 1024, 1500})
When == IF Chance(1, Prof.stale) /\ s.cur > 0 THEN s.cur - Pick(1..Min2(s.cur, 600)) ELSE Later
(* A measurement time is local time plus the epoch *)
MeasAt == IF s.tinit THEN When + s.ref ELSE Pick({0, 5, 1024, 100000})
LookKey == IF s.pol = "PRIMARY" THEN s.prim ELSE 0
CanLook(cam) == IF ClonesFrame(s, cam) THEN KeyIdx(s, cam) # {} ELSE KeyIdx(s, LookKey) # {}
CamsLook == {c \in Ids(s.cams) : CanLook(c)}
(* cameras whose features arrive before any pose was recorded *)
CamsBlind == IF s.augs # <<>> THEN {} ELSE IF s.pol = "NONE" THEN Ids(s.cams)
             ELSE IF s.pol = "PRIMARY" THEN Ids(s.cams) \ {s.prim} ELSE {}
BlindFrames == <<<<1001, Max2(0, s.cur - 40)>>, <<1002, s.cur>>>>
(* frames a camera may ask about: its clones, or times in the window *)
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o SortInts(S \ {SetMin(S)})
FramesOf(cam) ==
  IF ClonesFrame(s, cam)
  THEN [k \in 1..Cardinality(KeyIdx(s, cam)) |->
         LET a == s.augs[SetMin(KeyIdx(s, cam)) + k - 1] IN <<a.fid, a.t>>]
  ELSE LET t0 == s.augs[SetMin(KeyIdx(s, LookKey))].t
           T == {t0 + Pick(0..Max2(1, s.cur - t0)) : k \in 1..5} \cap (0..s.cur)
           q == SortInts(T)
       IN [k \in 1..Len(q) |-> <<1000 + k, q[k]>>]

Enabled(k) ==
  CASE k = "regimu" -> Len(s.imus) < Prof.imus
    [] k = "reggps" -> Len(s.gpss) < Prof.gpss
    [] k = "regcam" -> Len(s.cams) < Prof.cams
    [] k = "regfid" -> IF Prof.via THEN s.cams # <<>> /\ Cardinality(aux.pairs) < 5 ELSE Len(s.fids) < Prof.fids
    [] k = "camframe" -> s.cams # <<>>
    [] k = "dup" -> s.imus # <<>> \/ s.gpss # <<>> \/ s.cams # <<>> \/ s.fids # <<>>
    [] k = "predict" -> s.tinit
    [] k = "frame" -> s.cams # <<>>
    [] k = "step" -> s.cams # <<>> /\ s.tinit
    [] k = "look" -> CamsLook # {}
    [] k = "msckf" -> s.tinit /\ CamsLook \cup CamsBlind # {}
    [] k = "imu" -> s.imus # <<>>
    [] k \in {"gps", "gpsinit"} -> s.gpss # <<>>
    [] k = "fid" -> IF Prof.via THEN aux.pairs # {} ELSE s.fids # <<>> /\ s.cams # <<>>
    [] k = "setref" -> Chance(1, 4)
    [] k = "setlen" -> TRUE
    [] OTHER -> TRUE

RegOp(k, id) ==
  CASE k = "regimu" -> [op |-> k, id |-> id, ext |-> Pick(0..1), int |-> Pick(0..1), seed |-> Seed]
    [] k = "reggps" -> [op |-> k, id |-> id, ext |-> Pick(0..1), seed |-> Seed]
    [] k = "regcam" -> [op |-> k, id |-> id, ext |-> Pick(0..1), per |-> Pick({32, 64, 128, 256, 512}),
                        seed |-> Seed]
    [] k = "regfid" -> [op |-> k, id |-> id, ext |-> Pick(0..1), seed |-> Seed]
(* with sensor objects: ids count up, boards belong to a camera, and the same    *)
(* board may be watched by several cameras                                       *)
ViaOps(k) ==
  CASE k = "regfid" ->
         LET cam == SomeId(s.cams)
             id == Pick((1..6) \ {p[1] : p \in {q \in aux.pairs : q[2] = cam}})
             old == {j \in 1..Len(s.fids) : s.fids[j].id = id}
         IN <<[RegOp(k, id) EXCEPT !.ext = IF old = {} THEN @ ELSE Bit(s.fids[SetMin(old)].ext)] @@ [cam |-> cam]>>
    [] k = "regcam" -> <<RegOp(k, aux.nid) @@ [px |-> aux.world.px]>>
    [] k \in {"regimu", "reggps"} -> <<RegOp(k, aux.nid)>>
    [] k = "camframe" -> <<[op |-> k, cam |-> SomeId(s.cams), t |-> MeasAt, fid |-> aux.fid, blind |-> Pick(0..1)]>>
    [] k = "fid" ->
         LET pr == Pick(aux.pairs)
             t == MeasAt IN
         (IF s.tinit /\ Chance(1, 2) THEN <<[op |-> "predict", t |-> t - s.ref]>> ELSE <<>>) \o
         <<[op |-> k, id |-> pr[1], cam |-> pr[2], t |-> t, amp |-> Pick({0, 1, 2, 2, 3, 4}), frm |-> aux.fid, seed |-> Seed]>>
    [] k = "msckf" ->
         LET cam == Pick(CamsLook \cup CamsBlind)
             t == s.cur + Pick({0, 10, 50, 100})
             after == Frame(Predict(s, t, SetMin(s.wins), FALSE), cam, aux.fid)
             keep == {<<a.fid, a.t>> : a \in {after.augs[j] : j \in 1..Len(after.augs)}}
             F == IF cam \in CamsBlind THEN BlindFrames ELSE FramesOf(cam)
         IN <<[op |-> k, cam |-> cam, t |-> t + s.ref, nf |-> Pick({0, 1, 2, 3}), amp |-> Pick(0..3), frm |-> aux.fid, unk |-> Pick(0..1),
               px |-> aux.world.px,
               frames |-> IF ClonesFrame(s, cam) THEN SelectSeq(F, LAMBDA f : f \in keep) ELSE F, seed |-> Seed]>>
(* the operations of one generator step *)
Ops(k) ==
  CASE Prof.via /\ k \in {"regimu", "reggps", "regcam", "regfid", "camframe", "fid", "msckf"} -> ViaOps(k)
    [] k = "regimu" -> <<RegOp(k, Pick(Free(s.imus)))>>
    [] k = "reggps" -> <<RegOp(k, Pick(Free(s.gpss)))>>
    [] k = "regcam" -> <<RegOp(k, Pick(Free(s.cams)))>>
    [] k = "regfid" -> <<RegOp(k, Pick(Free(s.fids)))>>
    [] k = "dup" ->
         LET c == Pick({x \in {<<"regimu", s.imus>>, <<"reggps", s.gpss>>, <<"regcam", s.cams>>,
                               <<"regfid", s.fids>>} : x[2] # <<>>})
         IN <<RegOp(c[1], SomeId(c[2])) @@ [dup |-> 1]>>
    [] k = "setlen" -> <<[op |-> k, n |-> Pick(Prof.minlen..Prof.maxlen)]>>
    [] k = "predict" -> <<[op |-> k, t |-> When]>>
    [] k = "local" -> <<[op |-> k, t |-> MeasAt]>>
    [] k = "frame" -> <<[op |-> k, cam |-> SomeId(s.cams), fid |-> aux.fid]>>
    [] k = "step" ->   \* the body moves a little, time passes, a frame arrives
         <<[op |-> "nudge", seed |-> Seed],
           [op |-> "predict", t |-> s.cur + Pick({16, 40, 100, 200})],
           [op |-> "frame", cam |-> SomeId(s.cams), fid |-> aux.fid]>>
    [] k = "look" ->
         LET cam == Pick(CamsLook)
             F == IF cam \in CamsBlind THEN BlindFrames ELSE FramesOf(cam)
             f == Pick({F[m] : m \in 1..Len(F)} \cup
                       (IF ClonesFrame(s, cam) THEN {} ELSE {<<1, s.cur>>, <<1, Max2(0, s.cur - 2000)>>}))
         IN <<[op |-> k, cam |-> cam, fid |-> f[1], t |-> f[2]]>>
    [] k = "kalman" -> <<[op |-> k, m |-> Pick({1, 2, 3, 6, 9}), full |-> Pick(0..1), seed |-> Seed]>>
    [] k = "imu" -> <<[op |-> k, id |-> SomeId(s.imus), t |-> MeasAt, amp |-> Pick(0..8), seed |-> Seed]>>
    [] k = "gps" ->
         LET t == MeasAt IN
         (IF s.tinit /\ Chance(3, 4) THEN <<[op |-> "predict", t |-> t - s.ref]>> ELSE <<>>) \o
         <<[op |-> k, id |-> SomeId(s.gpss), t |-> t, amp |-> Pick(0..4), exact |-> 0, h |-> 0, seed |-> Seed]>>
    [] k = "gpsinit" ->
         LET w == [aux.world EXCEPT !.span = 1 + (@ * Min2(Len(hist), 16)) \div 16] IN
         (IF w.lag = 1 THEN <<>>
          ELSE <<[op |-> "setpos", x |-> Pick(-w.span..w.span), y |-> Pick(-w.span..w.span), z |-> Pick(-50..50)]>>)
         \o
         <<[op |-> "gps", id |-> SomeId(s.gpss), t |-> (IF s.tinit THEN Later + s.ref ELSE MeasAt),
            dx |-> w.lag * Pick(-w.span..w.span), dy |-> w.lag * Pick(-w.span..w.span),
            amp |-> w.amp, exact |-> Bit(w.amp = 0 /\ w.lag = 0), h |-> w.h, lat |-> w.lat, lon |-> w.lon, alt |-> w.alt,
            seed |-> Seed]>>
    [] k = "fid" ->
         LET t == MeasAt IN
         (IF s.tinit /\ Chance(3, 4) THEN <<[op |-> "predict", t |-> t - s.ref]>> ELSE <<>>) \o
         <<[op |-> k, id |-> SomeId(s.fids), cam |-> SomeId(s.cams), t |-> t, amp |-> Pick({0, 1, 2, 2, 3, 4}), seed |-> Seed]>>
    [] k = "msckf" ->
         LET cam == Pick(CamsLook \cup CamsBlind) IN
         <<[op |-> k, cam |-> cam, t |-> s.cur + s.ref, nf |-> Prof.nfs[Pick(1..Len(Prof.nfs))], amp |-> Pick(0..3), dep |-> Pick(0..2), unk |-> Pick(0..1),
            frames |-> IF cam \in CamsBlind THEN BlindFrames ELSE FramesOf(cam), seed |-> Seed]>>
    [] k = "zero" -> <<[op |-> k, b |-> Pick(0..1)]>>
    [] k = "setbody" -> <<[op |-> k, ang |-> Pick({1, 10, 20, 28, 31}), seed |-> Seed]>>
    [] OTHER -> <<[op |-> k, seed |-> Seed]>>

Apply(t, e) ==
  CASE e.op = "regimu" -> RegImu(t, e.id, e.ext = 1, e.int = 1)
    [] e.op = "reggps" -> RegGps(t, e.id, e.ext = 1)
    [] e.op = "regcam" -> RegCam(t, e.id, e.ext = 1, e.per)
    [] e.op = "regfid" -> RegFid(t, e.id, e.ext = 1)
    [] e.op = "setlen" -> SetLen(t, e.n)
    [] e.op = "init" -> InitClock(t, e.t)
    [] e.op = "grav" -> [t EXCEPT !.grav = TRUE]
    [] e.op = "predict" -> Predict(t, e.t, SetMin(t.wins), FALSE)
    [] e.op = "local" -> ClockStart(t, e.t)
    [] e.op = "camframe" \/ (e.op \in {"fid", "msckf"} /\ "frm" \in DOMAIN e) ->
         LET lt == LocalTime(t, e.t)
             u == Frame(Predict(ClockStart(t, e.t), lt, SetMin(t.wins), FALSE), e.cam,
                        IF e.op = "camframe" THEN e.fid ELSE e.frm)
         IN IF e.op = "camframe" THEN u ELSE Predict(u, lt, SetMin(t.wins), FALSE)
    [] e.op \in {"imu", "gps", "fid", "msckf"} ->
         Predict(ClockStart(t, e.t), LocalTime(t, e.t), SetMin(t.wins), FALSE)
    [] e.op = "frame" -> Frame(t, e.cam, e.fid)
    [] OTHER -> t
RECURSIVE ApplyAll(_, _)
ApplyAll(t, q) == IF q = <<>> THEN t ELSE ApplyAll(Apply(t, Head(q)), Tail(q))

NewOp == [op |-> "new", pol |-> Pick(Prof.pols), adt |-> Pick({100, 300, 1024}), ape |-> Pick({50, 300, 1000}),
          aae |-> Pick({20, 100, 400}), root |-> Pick(Prof.roots), fej |-> Pick(Prof.fejs), gi |-> Pick(Prof.gis),
          base |-> Pick({20, 100, 300}), pth |-> Pick({100, 1000, 5000}), ath |-> Pick({50, 100, 500}),
          chi |-> Pick({100, 1000, 5000}), nsf |-> Pick({1, 10, 100}), rate |-> Pick(Prof.rates), via |-> Bit(Prof.via),
          shadow |-> Bit(PROFILE = "dup"), seed |-> Seed]
Start0(n) ==
  <<n>> \o (IF Chance(1, 2) THEN <<[op |-> "init", t |-> Pick({0, 512, 5000} \cup (IF PROFILE \in {"clock", "predict", "mix"} THEN {-3000, -1} ELSE {})), seed |-> Seed]>> ELSE <<>>)
        \o (IF Chance(Prof.grav, 10) THEN <<[op |-> "grav"]>> ELSE <<>>)
        \o (IF Chance(1, 2) THEN <<[op |-> "zero", b |-> 0]>> ELSE <<>>)
World == [lat |-> Pick(-60..60), lon |-> Pick(-179..179), alt |-> Pick(-50..1500), h |-> Pick(-3100..3100),
          amp |-> Pick({0, 0, 1, 2, 3}), px |-> Pick({2, 5, 8, 15}),
          (* how far apart the fixes lie, and whether the estimate moves with them *)
          span |-> Pick({60, 150, 400, 1000, 4000}), lag |-> Pick({0, 0, 1})]

Begin ==
  /\ hist = <<>>
  /\ \E n \in {NewOp} : \E q \in {Start0(n)} :
        /\ hist' = q
        /\ s' = ApplyAll(NewFilter(n.pol, n.adt), Tail(q))
  /\ aux' = [fid |-> 1, world |-> World, pre |-> Prof.pre, nid |-> 1, pairs |-> {}]
Extend ==
  /\ hist # <<>>
  /\ Len(hist) < DEPTH
  /\ \E en \in {SelectSeq(Prof.w, Enabled)} :
     \E k \in {IF aux.pre # <<>> THEN Head(aux.pre) ELSE en[Pick(1..Len(en))]} :
     \E q \in {IF aux.pre # <<>> /\ ~Enabled(k) THEN <<>> ELSE Ops(k)} :
        /\ hist' = hist \o q
        /\ s' = ApplyAll(s, q)
        /\ aux' = [aux EXCEPT !.fid = @ + 1,
                              !.nid = IF k \in {"regimu", "reggps", "regcam"} /\ q # <<>> THEN @ + 1 ELSE @,
                              !.pairs = IF k = "regfid" /\ Prof.via /\ q # <<>> THEN @ \cup {<<q[1].id, q[1].cam>>} ELSE @,
                              !.pre = IF @ = <<>> THEN <<>> ELSE Tail(@)]
(* the finished script goes to the output directory *)
Write ==
  /\ hist # <<>> /\ Len(hist) >= DEPTH
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ ndJsonSerialize(IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script", hist)
  /\ hist' = <<>> /\ s' = NewFilter("NONE", 0) /\ aux' = [fid |-> 1]

Init == /\ s = NewFilter("NONE", 0) /\ hist = <<>> /\ aux = [fid |-> 1] /\ TLCSet(7, 0)
Next == Begin \/ Extend \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
