---------------------------- MODULE FilterTrace ----------------------------
(***************************************************************************)
(* Validates a recorded run of the real filter (one JSON event per line,   *)
(* written by harness/driver) against FilterCore and FilterNum: every      *)
(* event must be a step the specification allows.                          *)
(*                                                                         *)
(* s is the specification's own filter, never read back from the trace     *)
(* except to resolve the choices the specification leaves open (a decision *)
(* numerically at its threshold); h is what the specification remembers    *)
(* besides.  A step that is not allowed is reported per property.          *)
(***************************************************************************)
EXTENDS FilterNum, Json, IOUtils

CONSTANT ACTIVE          \* the properties to decide
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, s, h, bad
vars == <<i, s, h, bad>>

(* ---------------------------------------------------------------- reporting *)
(* a check yields the set of failures it adds *)
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}
On(p) == p \in ACTIVE

ToB(n) == n # 0
NumStr(n) == ToString(n)

(* ---------------------------------------------------------------- observed state *)
CovAt(o) == Trace[o.pi].P
(* The observation can be read as an estimate with the layout of t *)
ListsFit(t, o) ==
  /\ Len(o.imus) = Len(t.imus) /\ \A k \in 1..Len(t.imus) : o.imus[k].id = t.imus[k].id
  /\ Len(o.gpss) = Len(t.gpss) /\ \A k \in 1..Len(t.gpss) : o.gpss[k].id = t.gpss[k].id
  /\ Len(o.cams) = Len(t.cams) /\ \A k \in 1..Len(t.cams) : o.cams[k].id = t.cams[k].id
  /\ Len(o.fids) = Len(t.fids) /\ \A k \in 1..Len(t.fids) : o.fids[k].id = t.fids[k].id
  /\ Len(o.augs) = Len(t.augs)
Fits(t, o) == ListsFit(t, o) /\ o.cr = StateSize(t) /\ o.cc = StateSize(t)

(* ---------------------------------------------------------------- C01: layout *)
LayoutOk(t, o) ==
  /\ o.n = StateSize(t) /\ o.vn = StateSize(t)
  /\ o.cr = StateSize(t) /\ o.cc = StateSize(t)
  /\ ListsFit(t, o)
  /\ o.b.ix = 0
  /\ \A k \in 1..Len(t.imus) :
       LET m == t.imus[k]  y == o.imus[k]
           ie == Start(t, "ie" \o NumStr(m.id))  ii == Start(t, "ii" \o NumStr(m.id))
       IN /\ y.ext = m.ext /\ y.int = m.int
          /\ y.sz = (IF m.ext THEN ExtSize ELSE 0) + (IF m.int THEN IntSize ELSE 0)
          /\ m.ext => y.ie = ie
          /\ m.int => y.ii = ii
          /\ m.ext => y.ix = ie
          /\ (m.int /\ ~m.ext) => y.ix = ii
  /\ \A k \in 1..Len(t.gpss) :
       LET m == t.gpss[k]  y == o.gpss[k]
       IN y.ext = m.ext /\ (IF m.ext THEN y.sz = GpsSize /\ y.ix = Start(t, "g" \o NumStr(m.id))
                            ELSE y.sz = 0)
  /\ \A k \in 1..Len(t.cams) :
       LET m == t.cams[k]  y == o.cams[k]
       IN y.ext = m.ext /\ (IF m.ext THEN y.sz = ExtSize /\ y.ix = Start(t, "c" \o NumStr(m.id))
                            ELSE y.sz = 0)
  /\ \A k \in 1..Len(t.fids) :
       LET m == t.fids[k]  y == o.fids[k]
       IN y.ext = m.ext /\ (IF m.ext THEN y.sz = ExtSize /\ y.ix = Start(t, "f" \o NumStr(m.id))
                            ELSE y.sz = 0)
  /\ \A k \in 1..Len(t.augs) : o.augs[k].ix = AugStart(t) + CloneSize * (k - 1)
                               /\ o.augs[k].sz = CloneSize
CountsOk(t, o) ==
  /\ o.counts = <<Len(t.imus), Len(t.gpss), Len(t.cams)>>
  /\ o.sizes = <<SizeOf(ImuBlocks(t)), SizeOf(GpsBlocks(t)), SizeOf(CamBlocks(t)),
                 SizeOf(AugBlocks(t))>>
  (* group starts are maintained from the first registration or clone on *)
  /\ (t.imus # <<>> \/ t.gpss # <<>> \/ t.cams # <<>> \/ t.fids # <<>> \/ t.augs # <<>>) =>
       o.starts = <<ImuStart(t), GpsStart(t), CamStart(t), FidStart(t), AugStart(t)>>
LayoutChecks(t, o) ==
  IF ~On("C01") THEN {}
  ELSE Chk("C01", "layout", LayoutOk(t, o)) \cup Chk("C01", "counts", CountsOk(t, o))

(* ---------------------------------------------------------------- C27: health *)
UnitTol == RE(1, -6)
Healthy(t, o) ==
  LET P == CovAt(o) IN
  /\ RFinite(o.b.p) /\ RFinite(o.b.v) /\ RFinite(o.b.a) /\ RFinite(o.b.w) /\ RFinite(o.b.al)
  /\ QUnit(o.b.q, UnitTol)
  /\ \A k \in 1..Len(o.imus) : QUnit(o.imus[k].q, UnitTol) /\ RFinite(o.imus[k].p)
                               /\ RFinite(o.imus[k].ba) /\ RFinite(o.imus[k].bg)
  /\ \A k \in 1..Len(o.gpss) : RFinite(o.gpss[k].p)
  /\ \A k \in 1..Len(o.cams) : QUnit(o.cams[k].q, UnitTol) /\ RFinite(o.cams[k].p)
  /\ \A k \in 1..Len(o.fids) : QUnit(o.fids[k].q, UnitTol) /\ RFinite(o.fids[k].p)
  /\ \A k \in 1..Len(o.augs) : QUnit(o.augs[k].q, UnitTol) /\ RFinite(o.augs[k].p)
                               /\ RLe(o.augs[k].t, o.cur)
  /\ P.r = o.n /\ P.c = o.n
  /\ MSymmetric(P, RE(1, -6)) /\ MPsd(P, RE(1, -7))
HealthChecks(t, o) == IF On("C27") THEN Chk("C27", "healthy", Healthy(t, o)) ELSE {}

(* ---------------------------------------------------------------- clones *)
SameClone(c, a) == c.key = a.key /\ c.fid = a.fid /\ a.t = Tick(c.t)
ClonesMatch(t, o) ==
  Len(t.augs) = Len(o.augs) /\ \A k \in 1..Len(t.augs) : SameClone(t.augs[k], o.augs[k])
(* Adopt the observed clones after a disagreement, so that the rest of the  *)
(* trace can still be judged.                                               *)
Adopt(t, o) ==
  LET known(a) == {k \in 1..Len(t.augs) : SameClone(t.augs[k], a)}
  IN [t EXCEPT !.augs = [k \in 1..Len(o.augs) |->
        LET a == o.augs[k] IN
        IF known(a) # {} THEN t.augs[SetMin(known(a))]
        ELSE [key |-> a.key, fid |-> a.fid, t |-> RFloor(RMul(a.t, RI(1024))),
              n |-> t.serial + k]],
      !.serial = @ + Len(o.augs)]
Added(t0, o) == {k \in 1..Len(o.augs) : \A j \in 1..Len(t0.augs) : ~SameClone(t0.augs[j], o.augs[k])}
Kept(t0, o) == {j \in 1..Len(t0.augs) : \E k \in 1..Len(o.augs) : SameClone(t0.augs[j], o.augs[k])}
NewLabs(t0, t1) == {CloneLab(t1.augs[k]) : k \in 1..Len(t1.augs)}
                   \ {CloneLab(t0.augs[k]) : k \in 1..Len(t0.augs)}
SpecAdded(t0, t1) == {k \in 1..Len(t1.augs) : t1.augs[k].n > t0.serial}
SpecKept(t0, t1) == {j \in 1..Len(t0.augs) : \E k \in 1..Len(t1.augs) : t1.augs[k].n = t0.augs[j].n}
(* which of the allowed outcomes the filter took; C06 judges what was added, C07 what was kept *)
CloneChecks(t0, cand, o) ==
  IF ~(On("C06") \/ On("C07")) THEN {}
  ELSE
    Chk("C06", "made", \E c \in cand :
      /\ Cardinality(SpecAdded(t0, c)) = Cardinality(Added(t0, o))
      /\ \A k \in SpecAdded(t0, c) : \E m \in Added(t0, o) : SameClone(c.augs[k], o.augs[m]))
    \cup
    Chk("C07", "window", \E c \in cand : SpecKept(t0, c) = Kept(t0, o))
    \cup
    Chk("C07", "order", \E c \in cand : SpecKept(t0, c) = Kept(t0, o) =>
      \A a, b \in 1..Len(o.augs) : a < b =>
        (o.augs[a].key < o.augs[b].key \/ (o.augs[a].key = o.augs[b].key /\
          RLe(o.augs[a].t, o.augs[b].t))))
Resolve(cand, o) ==
  IF \E c \in cand : ClonesMatch(c, o) THEN CHOOSE c \in cand : ClonesMatch(c, o)
  ELSE Adopt(CHOOSE c \in cand : TRUE, o)
(* pose of each clone of layout t1, from the clones of t0 in x and the body pose b *)
ClonePoses(t0, x, t1, b) ==
  [k \in 1..Len(t1.augs) |->
    LET old == {j \in 1..Len(t0.augs) : t0.augs[j].n = t1.augs[k].n}
    IN IF old # {} THEN [p |-> x.augs[SetMin(old)].p, q |-> x.augs[SetMin(old)].q]
       ELSE [p |-> b.p, q |-> b.q]]
CovMove(P, t0, t1) ==
  MGather(P, PosOfClone(Blocks(t1), Blocks(t0), NewLabs(t0, t1)))
(* "rows of a clone equal the rows of the body pose" *)
CloneRowsOk(P, t1, labs) ==
  \A lab \in labs :
    LET st == Start(t1, lab)
        idx == <<st + 1, st + 2, st + 3, st + 4, st + 5, st + 6>>
        all == [k \in 1..P.r |-> k]
        as == [k \in 1..P.r |-> IF k > st /\ k <= st + 6 THEN <<1, 2, 3, 10, 11, 12>>[k - st] ELSE k]
    IN NearP(P, MGather(P, as))

(* error policy: is the back-prediction off by more than a threshold?  Both *)
(* answers are allowed within 1e-6 of a threshold.                          *)
FarSet(t, x, b) ==   \* t: layout before, with the clock at the new time
  IF t.pol # "ERROR" \/ Own(t) = {} THEN {FALSE}
  ELSE LET last == x.augs[SetMax(Own(t))]
           dt == Tick(t.cur - LastOwn(t).t)
           dp == VNorm(VSub(VSub(b.p, VScale(dt, b.v)), last.p))
           da == VNorm(QToRotVec(QMul(QMul(b.q, QInv(QFromRotVec(VScale(dt, b.w)))), QInv(last.q))))
           eps == RE(1, -6)
           sure == RLt(RAdd(h.ape, eps), dp) \/ RLt(RAdd(h.aae, eps), da)
           never == RLt(dp, RSub(h.ape, eps)) /\ RLt(da, RSub(h.aae, eps))
       IN IF sure THEN {TRUE} ELSE IF never THEN {FALSE} ELSE {TRUE, FALSE}

(* ---------------------------------------------------------------- prediction *)
Noise(t) == h.q \o NoiseOf(Tail(Blocks(t)), h.stab)
(* the filter predicted from (t0, x, P) to time t, the clones afterwards    *)
(* being those of o                                                         *)
Predicted(t0, x, P, t, o) ==
  IF Stale(t0, t) THEN [s |-> t0, x |-> x, P |-> P, cand |-> {t0}]
  ELSE LET dt == Tick(t - t0.cur)
           b == IF t0.grav THEN BodyPredict(x.b, dt, t0.zero) ELSE x.b
           tc == [t0 EXCEPT !.cur = t]
           cand == {Predict(t0, t, w, far) : w \in t0.wins, far \in FarSet(tc, x, b)}
           t1 == Resolve(cand, o)
       IN [s |-> t1, cand |-> cand,
           x |-> [x EXCEPT !.b = b, !.augs = ClonePoses(t0, x, t1, b)],
           P |-> LET Pp == IF t0.grav THEN CovPredict(P, Noise(t0), dt) ELSE P
                 IN IF t1.augs = t0.augs THEN Pp ELSE CovMove(Pp, t0, t1)]

(* a camera message: predict, clone for the frame; an attached tracker or    *)
(* board then predicts to the same time again before it updates              *)
PredFrame(t0, x, P, t, cam, fid, again, o) ==
  LET stale == Stale(t0, t)
      moves == t0.grav /\ ~stale
      dt == Tick(t - t0.cur)
      b == IF moves THEN BodyPredict(x.b, dt, t0.zero) ELSE x.b
      fars == IF stale THEN {FALSE} ELSE FarSet([t0 EXCEPT !.cur = t], x, b)
      c2 == {Frame(Predict(t0, t, w, far), cam, fid) : w \in t0.wins, far \in fars}
      cand == IF again THEN {Predict(c, t, w, far) : c \in c2, w \in t0.wins, far \in fars} ELSE c2
      t1 == Resolve(cand, o)
      Pp == IF moves THEN CovPredict(P, Noise(t0), dt) ELSE P
  IN [s |-> t1, cand |-> cand,
      x |-> [x EXCEPT !.b = b, !.augs = ClonePoses(t0, x, t1, b)],
      P |-> IF t1.augs = t0.augs THEN Pp ELSE CovMove(Pp, t0, t1)]
(* the prediction of a measurement that came directly or with a camera message *)
PredictedIn(e, t0, x, P, t, again, o) ==
  IF "frm" \in DOMAIN e THEN PredFrame(t0, x, P, t, e.cam, e.frm, again, o)
  ELSE Predicted(t0, x, P, t, o)

(* ---------------------------------------------------------------- C20: data logs *)
(* e.logs: the rows the step added to the files, each as [f, id, nh, nc, c]   *)
(* (kind of file, id in its name, columns of header and row, cells by column).*)
(* Numbers are printed with six digits.                                       *)
Cells(r, name, n) == Cat([k \in 1..n |-> r.c[name \o "_" \o NumStr(k - 1)]])
Has(r, name, n) == \A k \in 1..n : (name \o "_" \o NumStr(k - 1)) \in DOMAIN r.c
Prints(a, b) == VNearEach(a, b, RE(1, -9), RE(2, -5))
Col(r, name, n, v) == Has(r, name, n) /\ Prints(Cells(r, name, n), v)
ColQ(r, name, q) == Has(r, name, 4) /\ QNear(Cells(r, name, 4), q, RE(1, -5))
Time(r, t) == "time" \in DOMAIN r.c /\ Prints(r.c.time, t)
Vars(P, at, n) == VSlice(MDiagOf(P), at + 1, n)
Row1(r, name, v) == name \in DOMAIN r.c /\ Prints(r.c[name], v)
BodyRow(r, t, x, P) ==
  /\ Time(r, Tick(t.cur))
  /\ Col(r, "body_pos", 3, x.b.p) /\ Col(r, "body_vel", 3, x.b.v) /\ Col(r, "body_acc", 3, x.b.a)
  /\ ColQ(r, "body_ang_pos", x.b.q)
  /\ Col(r, "body_ang_vel", 3, x.b.w) /\ Col(r, "body_ang_acc", 3, x.b.al)
  /\ Col(r, "body_cov", 18, Vars(P, 0, 18))
  /\ Row1(r, "state_size", RI(StateSize(t)))
AugRow(r, t, x) ==
  /\ Time(r, Tick(t.cur)) /\ Col(r, "aug_pos", 3, x.b.p) /\ ColQ(r, "aug_ang", x.b.q)
(* rows of the sensor whose measurement this step was *)
SensorRow(r, e, t, o, lt, still) ==
  LET P == CovAt(o) IN
  CASE r.f = "imu" ->
        LET k == CHOOSE k \in 1..Len(o.imus) : o.imus[k].id = e.id
            y == o.imus[k]
        IN /\ e.op = "imu" /\ r.id = e.id /\ Time(r, lt)
           /\ Row1(r, "stationary", IF still THEN R1 ELSE R0)
           /\ Col(r, "imu_pos", 3, y.p) /\ ColQ(r, "imu_ang_pos", y.q)
           /\ Col(r, "imu_acc_bias", 3, y.ba) /\ Col(r, "imu_gyr_bias", 3, y.bg)
           /\ t.imus[k].ext => Col(r, "imu_ext_cov", 6, Vars(P, Start(t, "ie" \o NumStr(e.id)), 6))
           /\ t.imus[k].int => Col(r, "imu_int_cov", 6, Vars(P, Start(t, "ii" \o NumStr(e.id)), 6))
           /\ Col(r, "acc", 3, e.acc) /\ Col(r, "omg", 3, e.gyr)
    [] r.f = "gps" ->
        LET k == CHOOSE k \in 1..Len(o.gpss) : o.gpss[k].id = e.id
        IN /\ e.op = "gps" /\ r.id = e.id /\ Time(r, lt)
           /\ Row1(r, "lat", X(e.lla)) /\ Row1(r, "lon", Y(e.lla)) /\ Row1(r, "alt", Z(e.lla))
           /\ Row1(r, "is_initialized", IF o.lla THEN R1 ELSE R0)
           /\ t.gpss[k].ext => /\ Col(r, "ant_pos", 3, o.gpss[k].p)
                               /\ Col(r, "gps_cov", 3, Vars(P, Start(t, "g" \o NumStr(e.id)), 3))
    [] r.f = "fiducial" ->
        LET k == CHOOSE k \in 1..Len(o.fids) : o.fids[k].id = e.id
            c == CHOOSE c \in 1..Len(o.cams) : o.cams[c].id = e.cam
        IN /\ e.op = "fid" /\ r.id = e.cam /\ Time(r, lt)
           /\ Row1(r, "board", RI(e.id))
           /\ Col(r, "board_meas_pos", 3, e.zp) /\ ColQ(r, "board_meas_ang", e.zq)
           /\ Col(r, "cam_pos", 3, o.cams[c].p) /\ ColQ(r, "cam_ang_pos", o.cams[c].q)
           /\ t.fids[k].ext => /\ Col(r, "fid_pos", 3, o.fids[k].p) /\ ColQ(r, "fid_ang", o.fids[k].q)
                               /\ Col(r, "fid_cov", 6, Vars(P, Start(t, "f" \o NumStr(e.id)), 6))
           /\ t.cams[c].ext => Col(r, "cam_cov", 6, Vars(P, Start(t, "c" \o NumStr(e.cam)), 6))
    [] r.f = "msckf" ->
        LET c == CHOOSE c \in 1..Len(o.cams) : o.cams[c].id = e.cam
        IN /\ e.op = "msckf" /\ r.id = e.cam /\ Time(r, lt)
           /\ Col(r, "cam_pos", 3, o.cams[c].p) /\ ColQ(r, "cam_ang_pos", o.cams[c].q)
           /\ t.cams[c].ext => Col(r, "cam_cov", 6, Vars(P, Start(t, "c" \o NumStr(e.cam)), 6))
    [] OTHER -> TRUE
(* pred: [s, x, P] after the prediction in this step *)
LogChecks(e, t, pred, lt, still) ==
  IF ~On("C20") \/ ~Fits(t, e.obs) THEN {}
  ELSE LET o == e.obs
           R == {e.logs[k] : k \in 1..Len(e.logs)} IN
       Chk("C20", "columns", \A r \in R : r.nh = r.nc /\ r.ok)
       \cup Chk("C20", "body row", \A r \in R : r.f = "body_state" =>
               (BodyRow(r, pred.s, pred.x, pred.P) \/ BodyRow(r, t, o, CovAt(o))))
       \cup Chk("C20", "clone row", \A r \in R : r.f = "aug_state" => AugRow(r, t, pred.x))
       \cup Chk("C20", "sensor row", \A r \in R : SensorRow(r, e, t, o, lt, still))
       (* files written without a rate limit get a row for every clone and detection *)
       \cup Chk("C20", "every clone logged", h.rate = 0 \/
               Cardinality({k \in 1..Len(e.logs) : e.logs[k].f = "aug_state"})
                 = Cardinality(Added(s, o)))

(* ---------------------------------------------------------------- steps *)
(* Each step returns [s, h, f]: next filter, next memory, failures *)
Ret(t, m, f) == [s |-> t, h |-> m, f |-> f]
Common(t, o) == LayoutChecks(t, o) \cup HealthChecks(t, o)

SameObs(o, p) == [o EXCEPT !.pi = 0] = [p EXCEPT !.pi = 0] /\ CovAt(o) = CovAt(p)

StepNew(e) ==
  LET t == NewFilter(e.pol, e.adt)
      m == [stab |-> ("none" :> <<>>), q |-> e.q, root |-> ToB(e.root), fej |-> ToB(e.fej),
            ape |-> e.apeR, aae |-> e.aaeR, chi |-> e.chiR, nsf |-> e.nsf,
            rate |-> e.rate, gi |-> e.gi, base |-> e.baseR, pth |-> e.pthR, ath |-> e.athR,
            lla |-> (e.gi = "CONSTANT"), ref |-> e.ref, refang |-> e.refang,
            gt |-> <<>>, ge |-> <<>>, gx |-> <<>>,
            moved |-> {}, first |-> ("none" :> <<>>), tri |-> (0 :> 0),
            sids |-> h.sids, tids |-> h.tids]   \* ids are used up for good
  IN Ret(t, m, Common(t, e.obs)
        \cup Chk("C04", "clock", e.obs.cur = R0)
        \cup Chk("C11", "ready", e.obs.lla = m.lla))

StepInit(e, po) ==
  LET t == InitClock(s, e.t) IN
  Ret(t, h, Common(t, e.obs) \cup Chk("C04", "initialised", e.obs.cur = Tick(e.t)))

(* registration *)
RegNoise(e, t) ==   \* stability terms of the new component, per scalar
  LET r3(v) == v \o v \o v IN
  CASE e.op = "regimu" ->
         [lab \in ({"ie" \o NumStr(e.id), "ii" \o NumStr(e.id)} \cap Labels(t)) |->
            IF lab = "ie" \o NumStr(e.id) THEN r3(e.st.s1) \o r3(e.st.s2)
            ELSE r3(e.st.s3) \o r3(e.st.s4)]
    [] e.op = "reggps" -> [lab \in ({"g" \o NumStr(e.id)} \cap Labels(t)) |-> r3(e.st.s1)]
    [] e.op = "regcam" ->
         [lab \in ({"c" \o NumStr(e.id)} \cap Labels(t)) |-> r3(e.st.s1) \o r3(e.st.s2)]
    [] e.op = "regfid" ->
         [lab \in ({"f" \o NumStr(e.id)} \cap Labels(t)) |-> r3(e.st.s1) \o r3(e.st.s2)]
RegStep(e) ==
  CASE e.op = "regimu" -> RegImu(s, e.id, ToB(e.ext), ToB(e.int))
    [] e.op = "reggps" -> RegGps(s, e.id, ToB(e.ext))
    [] e.op = "regcam" -> RegCam(s, e.id, ToB(e.ext), e.per)
    [] e.op = "regfid" -> RegFid(s, e.id, ToB(e.ext))
RegList(e, o) ==
  CASE e.op = "regimu" -> o.imus [] e.op = "reggps" -> o.gpss
    [] e.op = "regcam" -> o.cams [] e.op = "regfid" -> o.fids
RegSame(e, y) ==
  CASE e.op = "regimu" -> NearImu(y, e.st)
    [] e.op = "reggps" -> NearGps(y, e.st)
    [] OTHER -> NearPose(y, e.st)
Without(q, id) == SelectSeq(q, LAMBDA y : y.id # id)
StepReg(e, po) ==
  LET o == e.obs
      dup == e.id \in Ids(RegList(e, s))
      t == RegStep(e)
      m == IF dup THEN h ELSE [h EXCEPT !.stab = RegNoise(e, t) @@ @]
      new == Labels(t) \ Labels(s)
      fit == Fits(t, o)
      P0 == CovAt(po)
      kept == MGather(P0, PosOf(Blocks(t), Blocks(s)))
      at == IF new = {} THEN 0
            ELSE SetMin({Start(t, lab) : lab \in new})
      full == IF new = {} THEN kept
              ELSE LET sz == StateSize(t) - StateSize(s)
                   IN MPaste(kept, at + 1, at + 1, MBlock(e.cov, 1, 1, sz, sz))
  IN Ret(t, m,
      Common(t, o)
      \cup (IF dup /\ On("C03")
            THEN Chk("C03", "unchanged", SameObs(o, po)) \cup Chk("C03", "warned", e.warn >= 1)
            ELSE {})
      \cup (IF ~dup /\ On("C03") THEN Chk("C03", "fresh id registered", ListsFit(t, o)) ELSE {})
      \cup (IF ~dup /\ On("C02")
            THEN Chk("C02", "shape", fit)
                 \cup (IF fit THEN Chk("C02", "registered covariance", NearP(CovAt(o), full))
                         \cup Chk("C02", "estimate kept",
                              \E y \in {RegList(e, o)[k] : k \in 1..Len(RegList(e, o))} :
                                 y.id = e.id /\ RegSame(e, y))
                       ELSE {})
            ELSE {})
      \cup Chk("C04", "clock", o.cur = po.cur))

StepPredict(e, po) ==
  LET o == e.obs
      stale == Stale(s, e.t)
      r == Predicted(s, po, CovAt(po), e.t, o)
      fit == Fits(r.s, o)
      both == {lab \in Labels(s) : lab \in Labels(r.s)}
      sub == SelectSeq(Blocks(r.s), LAMBDA b : b.lab \in both)
      take(P) == MGather(P, PosOf(sub, Blocks(r.s)))
      still == ~s.grav \/ e.t = s.cur
  IN Ret(r.s, h,
      Common(r.s, o) \cup LogChecks(e, r.s, r, R0, FALSE)
      \cup (IF stale THEN Chk("C04", "stale ignored", SameObs(o, po))
            ELSE Chk("C04", "clock", o.cur = Tick(e.t)))
      \cup (IF ~stale THEN CloneChecks(s, r.cand, o) ELSE {})
      \cup (IF ~stale /\ On("C06") /\ fit
            THEN Chk("C06", "clone pose", All2(NearPose, r.x.augs, o.augs)) ELSE {})
      \cup (IF On("C02") /\ ~stale
            THEN Chk("C02", "shape", fit)
                 \cup (IF fit /\ still THEN Chk("C02", "survivors", NearP(CovAt(o), r.P)) ELSE {})
                 \cup (IF fit THEN Chk("C02", "clone rows",
                         CloneRowsOk(CovAt(o), r.s, NewLabs(s, r.s))) ELSE {})
            ELSE {})
      \cup (IF On("C05") /\ fit
            THEN Chk("C05", "body", NearBody(o.b, r.x.b))
                 \cup Chk("C05", "others untouched", NearCal(o, r.x))
                 \cup Chk("C05", "clones untouched", All2(NearPose, r.x.augs, o.augs))
                 \cup Chk("C05", "covariance", NearP(take(CovAt(o)), take(r.P)))
            ELSE {}))

StepLocal(e, po) ==
  LET o == e.obs
      t == ClockStart(s, e.t)
  IN Ret(t, h, Common(t, o)
      \cup Chk("C04", "local time", e.res = Tick(LocalTime(s, e.t)))
      \cup Chk("C04", "clock", o.cur = Tick(t.cur))
      \cup Chk("C04", "conversion changes nothing", [o EXCEPT !.cur = R0] = [po EXCEPT !.cur = R0]))

StepFrame(e, po) ==
  LET o == e.obs
      c == Frame(s, e.cam, e.fid)
      t == Resolve({c}, o)
      fit == Fits(t, o)
  IN Ret(t, h,
      Common(t, o) \cup CloneChecks(s, {c}, o)
      \cup LogChecks(e, t, [s |-> t, x |-> po, P |-> CovAt(o)], R0, FALSE)
      \cup Chk("C04", "clock", o.cur = po.cur)
      \cup (IF On("C06") /\ fit
            THEN Chk("C06", "clone pose",
                   All2(NearPose, ClonePoses(s, po, t, po.b), o.augs)) ELSE {})
      \cup (IF On("C07") /\ fit
            THEN Chk("C07", "survivors unchanged",
                   All2(NearPose, ClonePoses(s, po, t, po.b), o.augs)) ELSE {})
      \cup (IF On("C02")
            THEN Chk("C02", "shape", fit)
                 \cup (IF fit THEN Chk("C02", "survivors",
                         NearP(CovAt(o), CovMove(CovAt(po), s, t))) ELSE {})
            ELSE {}))

(* a camera message with nothing detected *)
StepCamFrame(e, po) ==
  LET o == e.obs
      t0 == ClockStart(s, e.t)
      r == PredFrame(t0, po, CovAt(po), LocalTime(s, e.t), e.cam, e.fid, FALSE, o)
      fit == Fits(r.s, o)
  IN Ret(r.s, h,
      Common(r.s, o)
      \cup Chk("C04", "clock", o.cur = Tick(r.s.cur))
      \cup CloneChecks(t0, r.cand, o)
      \cup (IF On("C06") /\ fit
            THEN Chk("C06", "clone pose", All2(NearPose, r.x.augs, o.augs)) ELSE {})
      \cup (IF On("C05") /\ fit
            THEN Chk("C05", "camera message", NearBody(o.b, r.x.b) /\ NearCal(o, r.x)) ELSE {})
      \cup (IF On("C02")
            THEN Chk("C02", "shape", fit)
                 \cup (IF fit THEN Chk("C02", "survivors", NearP(CovAt(o), r.P)) ELSE {})
            ELSE {}))

(* ---------------------------------------------------------------- C24: sensor objects *)
(* An event with a twin was done through sensor objects; the twin is a filter on   *)
(* which the same operation was done with the sensor's id and configured values.   *)
Bounded(v) == Cat([k \in 1..VLen(v) |-> LET x == VSlice(v, k, 1) IN IF RLt(x, RE(1, -6)) THEN RE(1, -6) ELSE x])
ConfCov(e) ==
  LET n == e.var IN
  CASE e.op = "regimu" ->
        MDiag(IF ToB(e.ext) /\ ToB(e.int) THEN Bounded(n)
              ELSE IF ToB(e.ext) THEN VSlice(Bounded(n), 1, 6) ELSE VSlice(Bounded(n), 7, 6))
    [] e.op = "regcam" -> MDiag(Bounded(n))
    [] OTHER -> MDiag(n)
CovTwin(e) == IF "TP" \in DOMAIN e THEN e.TP ELSE CovAt(e.obs)
TwinChecks(e) ==
  IF ~On("C24") \/ "twin" \notin DOMAIN e THEN {}
  ELSE LET o == e.obs  w == e.twin
           fit == ListsFit(o, w) /\ o.n = w.n IN
       Chk("C24", "registered once, under its own id", fit)
       \cup (IF ~fit THEN {} ELSE
              Chk("C24", "own calibration: estimate", NearEst(o, w))
              \cup Chk("C24", "own calibration: covariance", NearP(CovAt(o), CovTwin(e)))
              \cup Chk("C24", "same clock, clones and mode",
                       o.cur = w.cur /\ o.grav = w.grav /\ o.lla = w.lla /\ Len(o.augs) = Len(w.augs)
                       /\ \A k \in 1..Len(o.augs) : /\ o.augs[k].key = w.augs[k].key
                                                    /\ o.augs[k].fid = w.augs[k].fid
                                                    /\ o.augs[k].t = w.augs[k].t))
       \cup (IF "sid" \in DOMAIN e
             THEN Chk("C24", "sensor id is fresh", e.sid \notin h.sids /\ e.sid = e.id) ELSE {})
       \cup (IF "tid" \in DOMAIN e
             THEN Chk("C24", "tracker id is fresh", e.tid \notin h.tids) ELSE {})
       \cup (IF "var" \in DOMAIN e /\ (e.op # "regimu" \/ ToB(e.ext) \/ ToB(e.int))
             THEN Chk("C24", "configured variances", NearP(e.cov, ConfCov(e))) ELSE {})
(* ---------------------------------------------------------------- C03: shadow *)
(* A shadow filter is given everything but the repeated registrations.             *)
ShadowChecks(e) ==
  IF ~On("C03") \/ "sameP" \notin DOMAIN e THEN {}
  ELSE Chk("C03", "later behaviour as without the repetition",
           [e.obs EXCEPT !.pi = 0] = e.shadow /\ e.sameP)
Used(e, m) ==
  [m EXCEPT !.sids = IF "sid" \in DOMAIN e THEN @ \cup {e.sid} ELSE @,
            !.tids = IF "tid" \in DOMAIN e THEN @ \cup {e.tid} ELSE @]

(* ---------------------------------------------------------------- C08: lookups *)
LookKey == IF s.pol = "PRIMARY" THEN s.prim ELSE 0
StepLook(e, po) ==
  LET o == e.obs
      own == KeyIdx(s, e.cam)
      hit == {k \in own : s.augs[k].fid = e.fid}
      ks == KeyIdx(s, LookKey)
      first == SetMin(ks)
      last == SetMax(ks)
      T(k) == s.augs[k].t
      before == {k \in ks : T(k) <= e.t /\ k + 1 \in ks /\ e.t <= T(k + 1)}
      lerp(a, b, al) ==
        /\ NearV(e.res.p, VAdd(a.p, VScale(al, VSub(b.p, a.p))))
        /\ NearQ(e.res.q, QSlerp(a.q, b.q, al))
      frac(a, b) == IF b = a THEN R0 ELSE RQ(e.t - a, b - a)
      between(k) ==
        LET al == frac(T(k), T(k + 1)) IN
        /\ e.res.ix = po.augs[k].ix /\ VNear(e.res.al, al, RE(1, -9), R0)
        /\ lerp(po.augs[k], po.augs[k + 1], al)
      good ==
        IF ClonesFrame(s, e.cam)
        THEN hit = {} \/ \E k \in hit :
               /\ e.res.p = po.augs[k].p /\ NearQ(e.res.q, po.augs[k].q)
               /\ e.res.t = po.augs[k].t /\ e.res.ix = po.augs[k].ix
        ELSE ks = {} \/
             (RFinite(e.res.p) /\ RFinite(e.res.q) /\ RFinite(e.res.al) /\ e.res.t = Tick(e.t) /\
              IF e.t < T(first)
              THEN e.res.p = po.augs[first].p /\ NearQ(e.res.q, po.augs[first].q)
                   /\ e.res.ix = po.augs[first].ix /\ e.res.al = R0
              ELSE IF e.t < T(last) THEN \E k \in before : between(k)
              ELSE LET al == frac(T(last), s.cur) IN
                   /\ e.res.ix = po.augs[last].ix /\ VNear(e.res.al, al, RE(1, -9), R0)
                   /\ lerp(po.augs[last], po.b, al))
  IN Ret(s, h, Common(s, o)
      \cup (IF On("C08") THEN Chk("C08", "pose", good) \cup Chk("C08", "pure", SameObs(o, po))
            ELSE {}))

(* ---------------------------------------------------------------- C09, C10 *)
StepKalman(e, po) ==
  LET o == e.obs
      k == Update(s, po, CovAt(po), e.H, e.r, e.R)
      P == CovAt(o)
  IN Ret(s, h, Common(s, o)
      \cup (IF On("C09")
            THEN IF Fits(s, o)
                 THEN Chk("C09", "estimate", NearEst(o, k.x))
                      \cup Chk("C09", "covariance", NearP(P, k.P))
                      \cup Chk("C09", "symmetric", MSymmetric(P, RE(1, -7)))
                      \cup Chk("C09", "psd", MPsd(P, RE(1, -8)))
                      \cup Chk("C09", "never exceeds the prior",
                               MPsd(MAdd(MSub(CovAt(po), P), MScale(RE(1, -8), MDiag(MDiagOf(CovAt(po))))), RE(1, -8)))
                 ELSE Chk("C09", "shape", FALSE)
            ELSE {}))
StepCorr(e, po) ==
  LET o == e.obs IN
  Ret(s, h, Common(s, o)
      \cup (IF On("C10")
            THEN Chk("C10", "correction", ListsFit(s, o) /\ NearEst(o, Correct(s, po, e.d)))
                 \cup Chk("C10", "covariance untouched", CovAt(o) = CovAt(po))
            ELSE {}))
StepVec(e, po) ==
  Ret(s, h, Common(s, e.obs)
      \cup (IF On("C10")
            THEN Chk("C10", "vector", VLen(e.res) = StateSize(s) /\ NearV(e.res, ToVec(s, po)))
                 \cup Chk("C10", "pure", SameObs(e.obs, po))
            ELSE {}))
StepSetVec(e, po) ==
  LET o == e.obs IN
  Ret(s, h, Common(s, o)
      \cup (IF On("C10")
            THEN Chk("C10", "set", ListsFit(s, o) /\ NearEst(o, FromVec(s, po, e.d)))
            ELSE {}))

(* ---------------------------------------------------------------- sensors *)
At(q, id) == CHOOSE k \in 1..Len(q) : q[k].id = id
(* calibration an updater works with: its first estimate in first-estimate mode *)
Calib(key, now) == IF h.fej /\ key \in DOMAIN h.first THEN h.first[key] ELSE now
Remember(m, key, now) ==
  IF key \in DOMAIN m.first THEN m ELSE [m EXCEPT !.first = (key :> now) @@ @]
Say(o, x) ==
  /\ PrintT("BODY|" \o RShow(BodyVec(o.b)) \o "|" \o RShow(BodyVec(x.b)))
  /\ \A k \in 1..Len(o.cams) : PrintT("CAM|" \o RShow(PoseVec(o.cams[k])) \o "|" \o RShow(PoseVec(x.cams[k])))
  /\ \A k \in 1..Len(o.imus) : PrintT("IMU|" \o RShow(PoseVec(o.imus[k])) \o "|" \o RShow(PoseVec(x.imus[k])))
  /\ \A k \in 1..Len(o.gpss) : PrintT("GPS|" \o RShow(o.gpss[k].p) \o "|" \o RShow(x.gpss[k].p))
EstChecks1(p, name, t, o, k) ==
  IF ~On(p) THEN {}
  ELSE IF ~Fits(t, o) THEN Chk(p, name \o " shape", FALSE)
  ELSE Chk(p, name \o " estimate", NearEst(o, k.x) \/ ~Say(o, k.x))
       \cup Chk(p, name \o " covariance", NearP(CovAt(o), k.P)
                                        \/ ~PrintT("COV|" \o MDiff(CovAt(o), k.P)))

EstChecks(p, name, t, o, k) ==
  IF p \in {"C13", "C14"} THEN EstChecks1(p, name, t, o, k)
  ELSE EstChecks1("C25", name, t, o, k) \cup (IF h.fej THEN {} ELSE EstChecks1(p, name, t, o, k))

(* GPS *)
RECURSIVE VSumSeq(_, _)
VSumSeq(q, n) == IF n = 0 THEN VZero(3) ELSE VAdd(VSumSeq(q, n - 1), q[n])
Mean(q) == VScale(RQ(1, Len(q)), VSumSeq(q, Len(q)))
Flat(v) == V3(X(v), Y(v), R0)
(* the filter's reading of the buffered fixes around their centroid: earth-fixed  *)
(* positions as east-north-up about their mean                                    *)
RECURSIVE RSumF(_, _, _, _)
RSumF(Op(_, _), p, q, n) == IF n = 0 THEN R0 ELSE RAdd(RSumF(Op, p, q, n - 1), Op(p[n], q[n]))
Align(enu, xyz) ==   \* least-squares heading, translation and residuals: xyz ~ Rot enu + t
  LET cs == Mean(enu)  ct == Mean(xyz)
      se == [k \in 1..Len(enu) |-> VSub(enu[k], cs)]
      te == [k \in 1..Len(xyz) |-> VSub(xyz[k], ct)]
      dot(a, b) == RAdd(RMul(X(a), X(b)), RMul(Y(a), Y(b)))
      crs(a, b) == RSub(RMul(X(a), Y(b)), RMul(Y(a), X(b)))
      ang == RAtan2(RSumF(crs, se, te, Len(se)), RSumF(dot, se, te, Len(se)))
      res == [k \in 1..Len(enu) |-> VSub(te[k], EnuToLocal(se[k], ang))]
      far == [k \in 1..Len(xyz) |-> VNorm(te[k])]
      used == {k \in 1..Len(enu) : RLt(VNorm(res[k]), far[k])}
      sq(a, b) == VDot(a, b)
      F[k \in 0..Len(enu)] ==
        IF k = 0 THEN R0 ELSE RAdd(F[k-1], IF k \in used
          THEN RDiv(VDot(res[k], res[k]), RMul(far[k], far[k])) ELSE R0)
      n == RI(Len(enu))
  IN [ang |-> ang, used |-> used,
      pos |-> RDiv(RSqrt(RSumF(sq, res, res, Len(res))), n),
      slope |-> IF used = {} THEN R0
                ELSE RDiv(RSqrt(F[Len(enu)]), RI(Cardinality(used)))]
Margin(a, b, tol) ==   \* a < b, "maybe" within tol
  IF RLt(RAdd(a, tol), b) THEN {TRUE} ELSE IF RLt(b, RSub(a, tol)) THEN {FALSE} ELSE {TRUE, FALSE}
EcefMeanEnu(ecef, ref) == [k \in 1..Len(ecef) |-> EcefToEnu(ecef[k], ref)]
ReadySet(ge, gx, reflla) ==   \* the answers the rule allows
  IF Len(ge) < 4 THEN {FALSE}
  ELSE LET enu == EcefMeanEnu(ge, reflla)
           D == {VNorm(Flat(VSub(enu[a], enu[b]))) : a, b \in 1..Len(enu)}
           d == CHOOSE v \in D : \A y \in D : RLe(y, v)
           al == Align(enu, gx)
       IN IF h.gi = "BASELINE" THEN Margin(h.base, d, RI(3))
          ELSE {a /\ b : a \in Margin(al.pos, h.pth, RMul(RE(1, -3), h.pth)),
                         b \in IF al.used = {} THEN {FALSE}
                                ELSE IF RLt(al.slope, RE(1, -12)) THEN {TRUE, FALSE}
                                ELSE Margin(al.slope, RTan(h.ath), RMul(RE(1, -3), h.ath))}
StepGps(e, po) ==
  LET o == e.obs
      t0 == ClockStart(s, e.t)
      lt == LocalTime(s, e.t)
      r == Predicted(t0, po, CovAt(po), lt, o)
      g == At(s.gpss, e.id)
      key == "g" \o NumStr(e.id)
      ext == s.gpss[g].ext
      a == Calib(key, r.x.gpss[g].p)
      H == GpsJac(r.s, r.x.b, a, e.id, ext)
      z == LlaToLocal(e.lla, h.ref, h.refang)
      k == Update(r.s, r.x, r.P, H, VSub(z, GpsPredict(r.x.b, a)), e.R)
      ecef == LlaToEcef(e.lla)
      gt == Append(h.gt, Tick(lt))
      ge == Append(h.ge, ecef)
      gx == Append(h.gx, r.x.b.p)
      quiet == NearEst(o, r.x) /\ NearP(CovAt(o), r.P)
      m0 == IF h.lla \/ o.lla THEN Remember(h, key, r.x.gpss[g].p) ELSE h
      m1 == IF h.lla THEN m0
            ELSE [m0 EXCEPT !.gt = gt, !.ge = ge, !.gx = gx, !.lla = o.lla,
                            !.ref = IF o.lla THEN o.ref ELSE @, !.refang = o.refang]
      (* the buffered fixes as one update: residuals against the buffered body   *)
      (* positions, unit noise                                                   *)
      n == Len(ge)
      rows == [j \in 1..n |-> VSub(EnuToLocal(EcefToEnu(ge[j], o.ref), o.refang), gx[j])]
      stack == [r |-> 3 * n, c |-> H.c, d |-> Cat([j \in 1..n |-> H.d])]
      mk == Update(r.s, r.x, r.P, stack, Cat(rows), MEye(3 * n))
      spread == VNorm(VSub(ge[1], ge[n]))
      mapTol == RAdd(RQ(1, 5), RMul(RE(1, -3), spread))
  IN Ret([r.s EXCEPT !.tinit = TRUE], m1,
      Common(r.s, o) \cup LogChecks(e, r.s, r, Tick(lt), FALSE)
      \cup Chk("C04", "clock", o.cur = Tick(r.s.cur))
      \cup CloneChecks(t0, r.cand, o)
      \cup (IF h.lla
            THEN EstChecks("C12", "gps", r.s, o, k)
                 \cup Chk("C11", "reference fixed", o.lla /\ o.ref = h.ref /\ o.refang = h.refang)
                 \cup (IF On("C12") /\ ~ext THEN Chk("C12", "offset not calibrated",
                        o.gpss[g].p = po.gpss[g].p) ELSE {})
            ELSE IF ~On("C11") THEN {}
            ELSE Chk("C11", "buffered",
                   /\ o.ngt = n /\ o.nge = n /\ o.ngx = n
                   /\ o.gt[n] = Tick(lt) /\ VNear(o.ge[n], ecef, RE(1, -4), R0)
                   /\ NearV(o.gx[n], r.x.b.p)
                   /\ \A j \in 1..(n - 1) : o.gt[j] = po.gt[j] /\ o.ge[j] = po.ge[j] /\ o.gx[j] = po.gx[j])
                 \cup Chk("C11", "rule", o.lla \in ReadySet(ge, gx, e.lla))
                 \cup (IF ~o.lla THEN Chk("C11", "estimate untouched", quiet)
                       ELSE Chk("C11", "one update", NearEst(o, mk.x) /\ NearP(CovAt(o), mk.P))
                            \cup (IF e.exact = 1
                                  THEN Chk("C11", "maps fixes onto the body",
                                         \A j \in 1..n : VNear(rows[j], Zero3, mapTol, R0))
                                       \cup Chk("C11", "heading",
                                         LET d == RSub(o.refang, RQ(e.h, 1000)) IN
                                         RLe(RAbs(RSin(RDiv(d, R2))), RE(1, -3)))
                                  ELSE {}))))

(* IMU *)
Motion(b, mo, e) ==
  [b EXCEPT !.a = QRot(b.q, QRot(mo.q, VSub(e.acc, mo.ba))),
            !.w = QRot(b.q, QRot(mo.q, VSub(e.gyr, mo.bg))),
            !.al = Zero3]
Rest(b) == [b EXCEPT !.a = Gravity, !.w = Zero3, !.al = Zero3]
StepImu(e, po) ==
  LET o == e.obs
      t0 == ClockStart(s, e.t)
      lt == LocalTime(s, e.t)
      j == At(s.imus, e.id)
      im == s.imus[j]
      P0 == CovAt(po)
      x0 == [po EXCEPT !.cur = Tick(t0.cur)]
      mo == po.imus[j]
      Rz == IF im.int THEN BlockDiag(e.Ra, e.Rg) ELSE e.Ra
      rz == RestResid(po.b, mo, im.int, e.acc, e.gyr)
      score == Score(RestJac(t0, po.b, mo, e.id, im.ext, im.int), P0, MScale(RI(h.nsf), Rz), rz)
      near == RLe(RAbs(RSub(score, h.chi)), RMul(RE(1, -6), RAdd(R1, h.chi)))
      above == RLt(h.chi, score)
      latched == e.id \in h.moved
      (* stationary: gravity may become initialised, predict, correct, rest *)
      rest(grav) ==
        LET t1 == [t0 EXCEPT !.grav = grav]
            r == Predicted(t1, x0, P0, lt, o)
            k == Update(r.s, r.x, r.P, RestJac(r.s, r.x.b, r.x.imus[j], e.id, im.ext, im.int), rz, Rz)
        IN [s |-> [r.s EXCEPT !.zero = TRUE], x |-> [k.x EXCEPT !.b = Rest(k.x.b)],
            P |-> k.P, moved |-> h.moved, cand |-> r.cand, pred |-> r]
      move ==
        LET t1 == [t0 EXCEPT !.zero = FALSE]
            k == IF Len(s.imus) = 1 THEN [x |-> [x0 EXCEPT !.b = Motion(po.b, mo, e)], P |-> P0]
                 ELSE Update(t1, x0, P0, ImuJac(t1, po.b, mo, e.id, im.ext, im.int),
                             VSub(e.acc \o e.gyr, ImuPredict(po.b, mo)), BlockDiag(e.Ra, e.Rg))
            r == Predicted(t1, k.x, k.P, lt, o)
        IN [s |-> r.s, x |-> r.x, P |-> r.P, moved |-> h.moved \cup {e.id}, cand |-> r.cand, pred |-> r]
      (* the branches the rule allows *)
      opts == IF latched THEN {"move"}
              ELSE IF near THEN {"move", "rest", "grav"}
              ELSE IF above /\ s.grav THEN {"move"}
              ELSE IF above THEN {"rest"}
              ELSE {"grav"}
      br(b) == IF b = "move" THEN move ELSE rest(b = "grav" \/ s.grav)
      agrees(b) == Fits(br(b).s, o) /\ NearEst(o, br(b).x) /\ o.grav = br(b).s.grav
      (* which branch the filter visibly took: rest leaves the body exactly at rest *)
      looked == IF o.b.a = Gravity /\ o.b.w = Zero3 /\ o.b.al = Zero3 THEN "rest" ELSE "move"
      b == IF Cardinality(opts) = 1 THEN CHOOSE y \in opts : TRUE
           ELSE IF \E y \in opts : agrees(y) THEN CHOOSE y \in opts : agrees(y)
           ELSE CHOOSE y \in opts : TRUE
      res == br(b)
      (* (a measurement in motion that says "at rest" leaves the body at rest as well) *)
      seems == IF looked = "rest" /\ b = "move" /\ Fits(res.s, o) /\ NearEst(o, res.x) THEN "move" ELSE looked
      prop == IF b = "move" THEN "C14" ELSE "C13"
      two == Len(s.imus) > 1
  IN Ret([res.s EXCEPT !.tinit = TRUE], [h EXCEPT !.moved = res.moved],
      Common(res.s, o) \cup LogChecks(e, res.s, res.pred, Tick(lt), b # "move")
      \cup Chk("C04", "clock", o.cur = Tick(res.s.cur))
      \cup CloneChecks(t0, res.cand, o)
      \cup (IF On("C13") /\ ~latched
            THEN Chk("C13", "decision", (seems = "rest") = (b # "move"))
                 \cup Chk("C13", "gravity", o.grav = res.s.grav) ELSE {})
      \cup (IF On("C13") /\ latched
            THEN Chk("C13", "motion is permanent", seems = "move") ELSE {})
      \cup EstChecks(prop, "imu", res.s, o, res)
      \cup (IF On("C14") /\ two THEN Chk("C14", "kinematics", VNear(e.pred,
              ImuPredict(po.b, mo), RE(1, -6), RE(1, -7)))
            ELSE {}))

(* Board detections *)
StepFid(e, po) ==
  LET o == e.obs
      t0 == ClockStart(s, e.t)
      lt == LocalTime(s, e.t)
      r == PredictedIn(e, t0, po, CovAt(po), lt, TRUE, o)
      key == "f" \o NumStr(e.id) \o "c" \o NumStr(e.cam)
      c0 == r.x.cams[At(s.cams, e.cam)]
      f0 == r.x.fids[At(s.fids, e.id)]
      now == [cp |-> c0.p, cq |-> c0.q, fp |-> f0.p, fq |-> f0.q]
      cal == Calib(key, now)
      c == [p |-> cal.cp, q |-> cal.cq]
      f == [p |-> cal.fp, q |-> cal.fq]
      cext == s.cams[At(s.cams, e.cam)].ext
      fext == s.fids[At(s.fids, e.id)].ext
      H == BoardJac(r.s, r.x.b, c, f, e.cam, cext, e.id, fext)
      k == Update(r.s, r.x, r.P, H, BoardResid(r.x.b, c, f, e.zp, e.zq), MDiag(e.ep \o e.eq))
  IN Ret([r.s EXCEPT !.tinit = TRUE], Remember(h, key, now),
      Common(r.s, o) \cup LogChecks(e, r.s, r, Tick(lt), FALSE)
      \cup Chk("C04", "clock", o.cur = Tick(r.s.cur))
      \cup CloneChecks(t0, r.cand, o)
      \cup EstChecks("C15", "board", r.s, o, k)
      \cup (IF On("C15") /\ ~cext THEN Chk("C15", "camera not calibrated",
              o.cams[At(s.cams, e.cam)].p = po.cams[At(s.cams, e.cam)].p
              /\ o.cams[At(s.cams, e.cam)].q = po.cams[At(s.cams, e.cam)].q) ELSE {})
      \cup (IF On("C15") /\ ~fext THEN Chk("C15", "board not calibrated",
              o.fids[At(s.fids, e.id)].p = po.fids[At(s.fids, e.id)].p
              /\ o.fids[At(s.fids, e.id)].q = po.fids[At(s.fids, e.id)].q) ELSE {}))

(* Feature tracks *)
LookPose(t, x, cam, fid, tk) ==
  (* pose, blocks it depends on with weights *)
  IF ClonesFrame(t, cam)
  THEN LET k == CHOOSE k \in KeyIdx(t, cam) : t.augs[k].fid = fid
       IN [p |-> x.augs[k].p, q |-> x.augs[k].q,
           dep |-> <<[lab |-> CloneLab(t.augs[k]), w |-> R1]>>]
  ELSE LET ks == KeyIdx(t, IF t.pol = "PRIMARY" THEN t.prim ELSE 0)
           T(k) == t.augs[k].t
           lab(k) == CloneLab(t.augs[k])
           first == SetMin(ks)  last == SetMax(ks)
           mix(a, b, al, la, lb) ==
             [p |-> VAdd(a.p, VScale(al, VSub(b.p, a.p))), q |-> QSlerp(a.q, b.q, al),
              dep |-> IF al = R0 THEN <<[lab |-> la, w |-> R1]>>
                      ELSE <<[lab |-> la, w |-> RSub(R1, al)], [lab |-> lb, w |-> al]>>]
       IN IF tk < T(first)
          THEN [p |-> x.augs[first].p, q |-> x.augs[first].q,
                dep |-> <<[lab |-> lab(first), w |-> R1]>>]
          ELSE IF tk < T(last)
          THEN LET k == CHOOSE k \in ks : T(k) <= tk /\ k + 1 \in ks /\ tk < T(k + 1)
               IN mix(x.augs[k], x.augs[k + 1], RQ(tk - T(k), T(k + 1) - T(k)), lab(k), lab(k + 1))
          ELSE mix(x.augs[last], x.b, IF t.cur = T(last) THEN R0 ELSE RQ(tk - T(last), t.cur - T(last)),
                   lab(last), "body")
ObsRows(t, x, e, c, cext, tr, m) ==   \* one observation: residual, H (2 x n), Hf (2 x 3)
  LET ob == tr.o[m]
      po == LookPose(t, x, e.cam, ob.fid, ob.tk)
      f == tr.f
      inb == QRot(QInv(po.q), VSub(f, po.p))
      pc == QRot(QInv(c.q), VSub(inb, c.p))
      z == Z(pc)
      J == [r |-> 2, c |-> 3, d |-> RDiv(R1, z) \o R0 \o RNeg(RDiv(X(pc), RMul(z, z))) \o
                                    R0 \o RDiv(R1, z) \o RNeg(RDiv(Y(pc), RMul(z, z)))]
      Rcb == MT(QMat(c.q))
      Rlc == MMul(Rcb, MT(QMat(po.q)))
      Hpos == MNeg(MMul(J, Rlc))
      Hang == MMul(J, MMul(Rlc, MMul(Skew(VSub(f, po.p)), LeftJac(po.q))))
      ci == Start(t, "c" \o NumStr(e.cam)) + 1
      H0 == IF ~cext THEN MZero(2, StateSize(t))
            ELSE MPaste(MPaste(MZero(2, StateSize(t)), 1, ci, MNeg(MMul(J, Rcb))),
                   1, ci + 3, MMul(J, MMul(Rcb, MMul(Skew(VSub(inb, c.p)), LeftJac(c.q)))))
      put(H, dp) ==
        LET at == Start(t, dp.lab) + 1
        IN MPaste(MPaste(H, 1, at, MScale(dp.w, Hpos)),
                  1, IF dp.lab = "body" THEN at + 9 ELSE at + 3, MScale(dp.w, Hang))
      H1 == put(H0, po.dep[1])
      H2 == IF Len(po.dep) = 2 THEN put(H1, po.dep[2]) ELSE H1
      mx == RDiv(RSub(ob.x, e.intr.cx), e.intr.fx)
      my == RDiv(RSub(ob.y, e.intr.cy), e.intr.fy)
  IN [r |-> RSub(mx, RDiv(X(pc), z)) \o RSub(my, RDiv(Y(pc), z)), H |-> H2, F |-> MMul(J, Rlc), z |-> z]
StackM(q) == [r |-> 2 * Len(q), c |-> q[1].c, d |-> Cat([k \in 1..Len(q) |-> q[k].d])]
(* what is left of a feature's rows once its position is eliminated *)
Eliminate(rows) ==
  LET H == StackM([k \in 1..Len(rows) |-> rows[k].H])
      F == StackM([k \in 1..Len(rows) |-> rows[k].F])
      r == Cat([k \in 1..Len(rows) |-> rows[k].r])
      A == MSub(MEye(F.r), MMul(F, MMul(MInv(MMul(MT(F), F)), MT(F))))
  IN [H |-> MMul(A, H), r |-> MVec(A, r)]
(* The feature's position is observable from its rows with room to spare.  When  *)
(* it is not (a camera that has hardly moved) what remains after elimination is   *)
(* decided by rounding, and the step is left open.                                *)
Observable(rows) ==
  LET F == StackM([k \in 1..Len(rows) |-> rows[k].F])
      G == MMul(MT(F), F)
      row(k) == VSlice(G.d, 3 * k - 2, 3)
      det == VDot(row(1), Cross(row(2), row(3)))
      tr == RDiv(RAdd(X(row(1)), RAdd(Y(row(2)), Z(row(3)))), RI(3))
  IN RLt(RMul(RE(1, -7), RMul(tr, RMul(tr, tr))), det)
(* The point nearest to a feature's rays from the stored poses, its depth in the *)
(* first camera, and whether the rays determine it                               *)
Intersection(t, x, e, c, tr) ==
  LET n == Len(tr.o)
      po == [m \in 1..n |-> LookPose(t, x, e.cam, tr.o[m].fid, tr.o[m].tk)]
      at == [m \in 1..n |-> VAdd(po[m].p, QRot(po[m].q, c.p))]
      d == [m \in 1..n |->
              LET v == V3(RDiv(RSub(tr.o[m].x, e.intr.cx), e.intr.fx),
                          RDiv(RSub(tr.o[m].y, e.intr.cy), e.intr.fy), R1)
              IN QRot(po[m].q, QRot(c.q, VScale(RDiv(R1, VNorm(v)), v)))]
      A[m \in 1..n] ==   \* sum of the projections across the rays
        LET a == MMul(MT(Skew(d[m])), Skew(d[m])) IN IF m = 1 THEN a ELSE MAdd(A[m - 1], a)
      b[m \in 1..n] ==
        LET a == MVec(MMul(MT(Skew(d[m])), Skew(d[m])), at[m]) IN IF m = 1 THEN a ELSE VAdd(b[m - 1], a)
      row(k) == VSlice(A[n].d, 3 * k - 2, 3)
      det == VDot(row(1), Cross(row(2), row(3)))
      sure == RLt(RE(1, -7), det)
      f == IF sure THEN MVec(MInv(A[n]), b[n]) ELSE Zero3
  IN [sure |-> sure, f |-> f, z |-> Z(QRot(QInv(c.q), QRot(QInv(po[1].q), VSub(f, at[1]))))]
Near01(a, b) == RLe(RAbs(RSub(a, b)), RE(1, -3))
(* what the log of triangulated features receives: features between one and a    *)
(* hundred metres in front of the camera, the first one of the first update and   *)
(* (with a rate far above the measurements') all of the updates after that         *)
TriChecks(e, t, x, c, lt) ==
  IF ~On("C16") \/ h.rate # 1000000 THEN {}
  ELSE LET rows == SelectSeq(e.logs, LAMBDA r : r.f = "triangulation")
           nt == Len(e.tracks)
           I == [f \in 1..nt |-> Intersection(t, x, e, c, e.tracks[f])]
           maybe == {f \in 1..nt : ~I[f].sure \/ Near01(I[f].z, R1) \/ Near01(I[f].z, RI(100))}
           inside == {f \in (1..nt) \ maybe : RLt(R1, I[f].z) /\ RLt(I[f].z, RI(100))}
           says(r, f) == /\ r.id = e.cam /\ Prints(r.c["feature"], RI(e.tracks[f].k))
                         /\ f \in maybe \/ (Prints(r.c["x"], X(I[f].f)) /\ Prints(r.c["y"], Y(I[f].f))
                                            /\ Prints(r.c["z"], Z(I[f].f)))
           known == e.cam \in DOMAIN h.tri
       IN Chk("C16", "triangulated", \A k \in 1..Len(rows) : \E f \in inside \cup maybe : says(rows[k], f))
          \cup (IF ~known
                THEN Chk("C16", "first triangulation",
                       IF inside # {} THEN Len(rows) = 1 ELSE Len(rows) <= (IF maybe = {} THEN 0 ELSE 1))
                ELSE IF lt <= h.tri[e.cam] THEN Chk("C16", "nothing logged", rows = <<>>)
                ELSE Chk("C16", "all triangulations",
                       \A f \in inside : Cardinality({k \in 1..Len(rows) : says(rows[k], f)}) >= 1))
TriMem(m, e, lt) ==
  IF h.rate = 1000000 /\ e.cam \notin DOMAIN m.tri /\ \E k \in 1..Len(e.logs) : e.logs[k].f = "triangulation"
  THEN [m EXCEPT !.tri = (e.cam :> lt) @@ @] ELSE m
(* e.tracks: the tracks that poses were recorded for.  Tracks that arrive before  *)
(* any pose was recorded (e.blind of them) are not measurements.                    *)
StepMsckf(e, po) ==
  LET o == e.obs
      t0 == ClockStart(s, e.t)
      lt == LocalTime(s, e.t)
      r == PredictedIn(e, t0, po, CovAt(po), lt, Len(e.tracks) > 0, o)
      key == "m" \o NumStr(e.cam)
      c0 == r.x.cams[At(s.cams, e.cam)]
      now == [p |-> c0.p, q |-> c0.q]
      c == Calib(key, now)
      cext == s.cams[At(s.cams, e.cam)].ext
      nt == Len(e.tracks)
      (* a feature whose position is not given lies where its rays meet, and only *)
      (* takes part between one and a hundred metres                                *)
      given == {f \in 1..nt : e.tracks[f].kn = 1}
      I == [f \in (1..nt) \ given |-> Intersection(r.s, r.x, e, c, e.tracks[f])]
      uses == given \cup {f \in (1..nt) \ given : I[f].sure /\ RLt(R1, I[f].z) /\ RLt(I[f].z, RI(100))}
      trk == [f \in 1..nt |-> IF f \in given THEN e.tracks[f] ELSE [e.tracks[f] EXCEPT !.f = I[f].f]]
      obs == [f \in uses |-> [m \in 1..Len(trk[f].o) |-> ObsRows(r.s, r.x, e, c, cext, trk[f], m)]]
      sure == /\ \A f \in (1..nt) \ given : I[f].sure /\ ~Near01(I[f].z, R1) /\ ~Near01(I[f].z, RI(100))
              /\ \A f \in uses : Observable(obs[f])
              /\ \A f \in uses \ given : \A m \in 1..Len(obs[f]) : RLt(RQ(1, 5), RAbs(obs[f][m].z))
      per == [f \in 1..nt |-> IF f \in uses THEN Eliminate(obs[f])
                              ELSE [r |-> <<>>, H |-> [r |-> 0, c |-> StateSize(r.s), d |-> <<>>]]]
      HH == [r |-> Len(Cat([f \in 1..nt |-> per[f].r])) \div 2, c |-> StateSize(r.s),
             d |-> Cat([f \in 1..nt |-> per[f].H.d])]
      rr == Cat([f \in 1..nt |-> per[f].r])
      px == IF RLt(e.px, RQ(1, 2)) THEN RQ(1, 2) ELSE e.px
      k == IF uses = {} THEN [x |-> r.x, P |-> r.P]
           ELSE Update(r.s, r.x, r.P, HH, rr, MScale(RMul(px, px), MEye(HH.r)))
      m1 == TriMem(IF nt = 0 THEN h ELSE Remember(h, key, now), e, lt)
  IN Ret([r.s EXCEPT !.tinit = TRUE], m1,
      Common(r.s, o) \cup LogChecks(e, r.s, r, Tick(lt), FALSE)
      \cup TriChecks(e, r.s, r.x, c, lt)
      \cup Chk("C04", "clock", o.cur = Tick(r.s.cur))
      \cup CloneChecks(t0, r.cand, o)
      \cup (IF sure THEN EstChecks("C16", "features", r.s, o, k) ELSE {}))

(* Test fixtures: the driver overwrites part of the real filter *)
StepFixture(e, po) ==
  LET o == e.obs
      t == CASE e.op = "setlen" -> SetLen(s, e.n)
             [] e.op = "grav" -> [s EXCEPT !.grav = TRUE]
             [] e.op = "zero" -> [s EXCEPT !.zero = ToB(e.b)]
             [] OTHER -> s
      m == CASE e.op = "setnoise" -> [h EXCEPT !.q = e.q]
             [] e.op = "setref" -> [h EXCEPT !.lla = TRUE, !.ref = e.ref, !.refang = e.refang]
             [] OTHER -> h
  IN Ret(t, m, Common(t, o)
      \cup (IF e.op = "setref" THEN Chk("C11", "set", o.lla /\ o.ref = e.ref /\ o.refang = e.refang) ELSE {})
      \cup (IF e.op = "grav" THEN Chk("C13", "set gravity", o.grav) ELSE {})
      \cup (IF e.op = "setlen" THEN Chk("C07", "length alone drops nothing", ClonesMatch(s, o)) ELSE {}))

Step(e, po) ==
  CASE e.op = "new" -> StepNew(e)
    [] e.op = "init" -> StepInit(e, po)
    [] e.op \in {"regimu", "reggps", "regcam", "regfid"} -> StepReg(e, po)
    [] e.op = "predict" -> StepPredict(e, po)
    [] e.op = "local" -> StepLocal(e, po)
    [] e.op = "frame" -> StepFrame(e, po)
    [] e.op = "camframe" -> StepCamFrame(e, po)
    [] e.op = "look" -> StepLook(e, po)
    [] e.op = "kalman" -> StepKalman(e, po)
    [] e.op = "corr" -> StepCorr(e, po)
    [] e.op = "vec" -> StepVec(e, po)
    [] e.op = "setvec" -> StepSetVec(e, po)
    [] e.op = "gps" -> StepGps(e, po)
    [] e.op = "imu" -> StepImu(e, po)
    [] e.op = "fid" -> StepFid(e, po)
    [] e.op = "msckf" -> StepMsckf(e, po)
    [] OTHER -> StepFixture(e, po)

(* ---------------------------------------------------------------- behaviour *)
Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == /\ i = 1 /\ bad = {}
        /\ s = NewFilter("NONE", 0)
        /\ h = [sids |-> {}, tids |-> {}]
Next ==
  /\ i <= N
  /\ \E r \in {Step(Trace[i], IF i = 1 THEN Trace[i].obs ELSE Trace[i - 1].obs)} :
     \E f \in {r.f \cup TwinChecks(Trace[i]) \cup ShadowChecks(Trace[i])} :
        /\ s' = r.s /\ h' = Used(Trace[i], r.h)
        /\ Report(f)
        /\ bad' = bad \cup f
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
(* every event was a step of the specification, to the end of the trace *)
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
