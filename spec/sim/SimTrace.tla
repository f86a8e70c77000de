------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* The simulated world: trajectories, and the messages the simulated       *)
(* sensors owe to them.  Validates recorded calls of the real classes.     *)
(***************************************************************************)
EXTENDS Earth, FiniteSets, Json, IOUtils, TLC
CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
(* world: the last world made; ids: sensor ids used; trk: tracker ids used; frm: last frame id *)
VARIABLES i, world, ids, trk, frm, bad
vars == <<i, world, ids, trk, frm, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}
Range(s) == {s[k] : k \in 1..Len(s)}

Fine == RE(1, -9)
Tiny == RE(1, -12)
Eight(s) == RMul(RI(8), s)
Near(a, b) == VNear(a, b, Fine, Fine)
(* each component within eight standard deviations, exactly where there is no error *)
Within8(a, b, s) == \A k \in 1..3 :
   RLe(RAbs(RSub(VAt(a, k), VAt(b, k))), RAdd(Eight(VAt(s, k)), RMul(Fine, RAdd(R1, RAbs(VAt(b, k))))))
(* turned by no more than eight standard deviations *)
Turned8(a, b, s) == QUnit(a, Fine) /\ RLe(VNorm(QToRotVec(QMul(a, QInv(b)))), RAdd(Eight(VNorm(s)), RE(1, -7)))
Square(s) == MDiag(V3(RMul(X(s), X(s)), RMul(Y(s), Y(s)), RMul(Z(s), Z(s))))
SameMat(a, b) == MNear(a, b, RE(1, -15), Fine)

(* ---------------------------------------------------------------- C22: message times *)
Count(e) == RFloor(RMul(world.max, e.rt))
Lag(e, k) == RSub(e.ms[k].t, RDiv(RI(k - 1), e.rt))
TimesOk(e) ==
  IF e.exact THEN \A k \in 1..Len(e.ms) : RLe(RAbs(Lag(e, k)), Tiny)
  ELSE /\ \A k \in 1..Len(e.ms) :
            /\ RLe(RNeg(RAdd(Eight(e.jt), Tiny)), Lag(e, k))
            /\ RLe(Lag(e, k), RAdd(RDiv(R1, e.rt), RAdd(Eight(e.jt), Tiny)))
       /\ \A k \in 1..Len(e.ms) : RLe(RAbs(RSub(Lag(e, k), Lag(e, 1))), RAdd(RMul(RI(16), e.jt), Fine))
CommonChecks(e) ==
  Chk("C22", "count", Len(e.ms) = Count(e))
  \cup Chk("C22", "times", TimesOk(e))
  \cup Chk("C22", "sensor", \A k \in 1..Len(e.ms) : e.ms[k].id = e.sid /\ e.ms[k].ok)
  \cup Chk("C24", "new sensor id", e.sid \notin ids)
(* with enough messages the scatter has the configured size: dev[k] are the deviations *)
RECURSIVE SumSq(_, _, _)
SumSq(dev, c, k) == IF k = 0 THEN R0 ELSE RAdd(RMul(VAt(dev[k], c), VAt(dev[k], c)), SumSq(dev, c, k - 1))
SpreadOk(dev, s) ==
  Len(dev) < 120 \/ \A c \in 1..3 :
     LET rms == RSqrt(RDiv(SumSq(dev, c, Len(dev)), RI(Len(dev))))
     IN RLt(VAt(s, c), RE(1, -6)) \/
        (RLe(RMul(RQ(11, 20), VAt(s, c)), rms) /\ RLe(rms, RMul(RQ(3, 2), VAt(s, c))))

(* ---------------------------------------------------------------- C22: IMU *)
Gravity == V3(R0, R0, RE(980665, -5))
ImuAcc(b, p, q) ==
  QRot(QInv(q), VAdd(QRot(QInv(b.q), VAdd(b.a, Gravity)), VAdd(Cross(b.al, p), Cross(b.w, Cross(b.w, p)))))
ImuGyr(b, q) == QRot(QInv(q), b.w)
ImuChecks(e) ==
  LET ax(m) == IF e.exact THEN ImuAcc(m.b, e.tp, e.tq) ELSE VAdd(ImuAcc(m.b, e.tp, e.tq), e.tba)
      gx(m) == IF e.exact THEN ImuGyr(m.b, e.tq) ELSE VAdd(ImuGyr(m.b, e.tq), e.tbg)
      n == Len(e.ms)
  IN CommonChecks(e)
     \cup Chk("C22", "true mounting",
            IF e.exact THEN e.tp = e.np /\ e.tq = e.nq /\ e.tba = e.nba /\ e.tbg = e.nbg
            ELSE /\ Within8(e.tp, e.np, e.sp) /\ Turned8(e.tq, e.nq, e.sq)
                 /\ Within8(e.tba, e.nba, e.sba) /\ Within8(e.tbg, e.nbg, e.sbg))
     \cup Chk("C22", "acceleration", \A k \in 1..n :
            IF e.exact THEN Near(e.ms[k].a, ax(e.ms[k])) ELSE Within8(e.ms[k].a, ax(e.ms[k]), e.sa))
     \cup Chk("C22", "angular rate", \A k \in 1..n :
            IF e.exact THEN Near(e.ms[k].g, gx(e.ms[k])) ELSE Within8(e.ms[k].g, gx(e.ms[k]), e.sg))
     \cup Chk("C22", "imu scatter", e.exact \/
            (/\ SpreadOk([k \in 1..n |-> VSub(e.ms[k].a, ax(e.ms[k]))], e.sa)
             /\ SpreadOk([k \in 1..n |-> VSub(e.ms[k].g, gx(e.ms[k]))], e.sg)))
     \cup Chk("C22", "imu covariance", \A k \in 1..n :
            SameMat(e.ms[k].ca, Square(e.sa)) /\ SameMat(e.ms[k].cg, Square(e.sg)))

(* ---------------------------------------------------------------- C22: GPS *)
GpsChecks(e) ==
  LET ant(m) == VAdd(m.b.p, QRot(m.b.q, e.tp))
      seen(m) == EcefToLocal(Ecef(m.lla), world.ref, world.head)
      n == Len(e.ms)
      mm == V3(RE(2, -3), RE(2, -3), RE(2, -3))
      some == IF n <= 40 THEN 1..n ELSE {k \in 1..n : k % 5 = 0}
  IN CommonChecks(e)
     \cup Chk("C22", "true antenna", IF e.exact THEN e.tp = e.np ELSE Within8(e.tp, e.np, e.sp))
     \cup Chk("C22", "fix", \A k \in some :
            VNear(Ecef(e.ms[k].lla), LocalToEcef(ant(e.ms[k]), world.ref, world.head),
                  IF e.exact THEN RE(2, -3) ELSE RAdd(RE(2, -3), Eight(VNorm(e.sl))), R0)
            /\ (e.exact \/ Within8(seen(e.ms[k]), ant(e.ms[k]), VAdd(e.sl, mm))))
     \cup Chk("C22", "gps scatter", e.exact \/ n < 120 \/
            SpreadOk([k \in 1..n |-> VSub(seen(e.ms[k]), ant(e.ms[k]))], e.sl))
     \cup Chk("C22", "gps covariance", \A k \in 1..n : SameMat(e.ms[k].c, Square(e.sl)))

(* ---------------------------------------------------------------- C22: camera *)
(* lens: fx fy k1 k2 p1 p2 width height pixel *)
Project(l, v) ==
  LET x == RDiv(X(v), Z(v))  y == RDiv(Y(v), Z(v))
      r2 == RAdd(RMul(x, x), RMul(y, y))
      rad == RAdd(R1, RAdd(RMul(VAt(l, 3), r2), RMul(VAt(l, 4), RMul(r2, r2))))
      xy2 == RMul(R2, RMul(x, y))
      dx == RAdd(RMul(x, rad), RAdd(RMul(VAt(l, 5), xy2), RMul(VAt(l, 6), RAdd(r2, RMul(R2, RMul(x, x))))))
      dy == RAdd(RMul(y, rad), RAdd(RMul(VAt(l, 5), RAdd(r2, RMul(R2, RMul(y, y)))), RMul(VAt(l, 6), xy2)))
  IN RAdd(RMul(RDiv(VAt(l, 1), VAt(l, 9)), dx), RDiv(VAt(l, 7), R2)) \o
     RAdd(RMul(RDiv(VAt(l, 2), VAt(l, 9)), dy), RDiv(VAt(l, 8), R2))
InCam(e, b, x) ==
  QRot(QInv(QMul(b.q, e.tq)), VSub(x, VAdd(b.p, QRot(b.q, e.tp))))
Inside(l, u, slack) ==
  /\ RLe(RNeg(slack), VAt(u, 1)) /\ RLe(VAt(u, 1), RAdd(VAt(l, 7), slack))
  /\ RLe(RNeg(slack), VAt(u, 2)) /\ RLe(VAt(u, 2), RAdd(VAt(l, 8), slack))
Slack == RE(5, -2)
SeenOk(e, b, s) ==
  LET v == InCam(e, b, s.x) IN
  /\ RLt(R0, Z(v))
  /\ LET u == Project(e.lensv, v)
         (* the projection is less certain for points almost in the camera plane *)
         sl == RMul(Slack, RAdd(R1, RDiv(RE(5, -1), Z(v))))
         t == IF e.exact THEN sl ELSE RAdd(RQ(1, 2), sl)
     IN /\ Inside(e.lensv, u, sl)
        /\ RLe(RAbs(RSub(VAt(u, 1), VAt(s.px, 1))), t) /\ RLe(RAbs(RSub(VAt(u, 2), VAt(s.px, 2))), t)
        /\ (e.exact \/ (RI(RFloor(VAt(s.px, 1))) = VAt(s.px, 1) /\ RI(RFloor(VAt(s.px, 2))) = VAt(s.px, 2)))
HiddenOk(e, b, x) ==
  LET v == InCam(e, b, x) IN
  \/ RLe(Z(v), RE(1, -1))
  \/ ~Inside(e.lensv, Project(e.lensv, v), RNeg(RMul(RI(6), Slack)))
(* features added on request: as many as asked for, in view of the (undistorted) camera *)
AddOk(e, a) ==
  /\ a.kept /\ Len(a.pts) = a.n /\ a.got = a.pts
  /\ \A x \in Range(a.pts) : LET v == InCam(e, a.b, x) IN
        /\ RLe(R0, Z(v))
        /\ RLe(Z(v), RE(1, -3)) \/ Inside([k \in 1..Len(e.lensv) |-> IF k \in 5..12 THEN R0[((k + 1) % 2) + 1] ELSE e.lensv[k]],
                                       Project([k \in 1..Len(e.lensv) |-> IF k \in 5..12 THEN R0[((k + 1) % 2) + 1] ELSE e.lensv[k]], v), Slack)
BoardOf(e, id) == CHOOSE d \in Range(e.bds) : d.id = id
BoardP(e, b, d) == InCam(e, b, d.tp)
BoardQ(e, b, d) == QMul(QInv(QMul(b.q, e.tq)), d.tq)
DetOk(e, m, x) ==
  LET d == BoardOf(e, x.id) IN
  /\ x.s = e.sid /\ x.t = m.t /\ x.ok /\ x.vis /\ x.f = m.f /\ x.ft = m.t
  /\ x.ep = d.st /\ x.eq = d.sr
  /\ IF e.exact THEN Near(x.p, BoardP(e, m.b, d)) /\ QNear(x.q, BoardQ(e, m.b, d), Fine)
     ELSE Within8(x.p, BoardP(e, m.b, d), d.st) /\ Turned8(x.q, BoardQ(e, m.b, d), d.sr)
CamChecks(e) ==
  LET n == Len(e.ms)
      boards == {d.id : d \in Range(e.bds)}
      fresh == Range(e.trs) \cup boards
  IN CommonChecks(e)
     \cup Chk("C22", "true camera", IF e.exact THEN e.tp = e.np /\ e.tq = e.nq
                                   ELSE Within8(e.tp, e.np, e.sp) /\ Turned8(e.tq, e.nq, e.sq))
     \cup Chk("C22", "true lens", e.lensv = e.lens0)
     \cup Chk("C22", "true boards", \A d \in Range(e.bds) :
            IF e.exact THEN d.tp = d.np /\ d.tq = d.nq
            ELSE Within8(d.tp, d.np, d.sp) /\ Turned8(d.tq, d.nq, d.sq))
     \cup Chk("C22", "frame ids", \A k \in 1..n : e.ms[k].f > (IF k = 1 THEN frm ELSE e.ms[k - 1].f))
     \cup Chk("C22", "tracker messages", \A k \in 1..n :
            /\ Len(e.ms[k].trk) = Len(e.trs) /\ {x.id : x \in Range(e.ms[k].trk)} = Range(e.trs)
            /\ \A x \in Range(e.ms[k].trk) : x.s = e.sid /\ x.t = e.ms[k].t /\ x.ok)
     \cup Chk("C22", "seen", \A k \in 1..n : \A x \in Range(e.ms[k].trk) :
            \A j \in 1..Len(x.seen) : SeenOk(e, e.ms[k].b, x.seen[j]))
     \cup Chk("C22", "not seen", \A k \in 1..n : \A x \in Range(e.ms[k].trk) :
            \A j \in 1..Len(x.rest) : HiddenOk(e, e.ms[k].b, x.rest[j]))
     \cup Chk("C22", "features added", \A k \in 1..Len(e.add) : AddOk(e, e.add[k]))
     \cup Chk("C22", "board messages", \A k \in 1..n :
            Len(e.ms[k].fid) = Len(e.bds) /\ {x.id : x \in Range(e.ms[k].fid)} = boards)
     \cup Chk("C22", "detections", \A k \in 1..n : \A x \in Range(e.ms[k].fid) :
            x.id \in boards => DetOk(e, e.ms[k], x))
     \cup Chk("C24", "new tracker ids", fresh \cap trk = {} /\ Len(e.trs) + Len(e.bds) =
            Cardinality(fresh))

(* ---------------------------------------------------------------- C23: trajectories *)
RollPitchYaw(v) ==
  QMul(QFromRotVec(V3(R0, R0, Z(v))), QMul(QFromRotVec(V3(R0, Y(v), R0)), QFromRotVec(V3(X(v), R0, R0))))
Wave(amp, f, off, t) ==      \* amp/2 (1 - cos(2 pi f t)) + off
  [k \in 1..6 |-> LET c == (k + 1) \div 2 IN
     RAdd(VAt(off, c), RMul(RDiv(amp, R2), RSub(R1, RCos(RMul(RMul(R2, PiQ), RMul(VAt(f, c), t))))))[((k + 1) % 2) + 1]]
Rel(t) == LET d == RSub(t, world.stat) IN IF RLt(d, R0) THEN R0 ELSE d
CyclicP(t) == Wave(world.pa, world.pf, world.po, Rel(t))
CyclicQ(t) == RollPitchYaw(Wave(world.aa, world.af, world.ao, Rel(t)))
AtRest(x) == x.v = Zero3 /\ x.a = Zero3 /\ x.w = Zero3 /\ x.al = Zero3
StartP == IF world.kind = "cyclic" THEN world.po ELSE world.first
StartQ == RollPitchYaw(IF world.kind = "cyclic" THEN world.ao ELSE world.firsta)
Slope(a, b, h) == VScale(RDiv(R1, RMul(R2, h)), VSub(b, a))
Gap(a, b) == VNorm(VSub(a, b))
(* the derivative of a quantity whose own rate of change is d, as far as differences can tell *)
IsSlope(lo, hi, h, d, loose) == RLe(Gap(Slope(lo, hi, h), d), RAdd(RMul(RE(2, -5), RAdd(R1, VNorm(d))), loose))
Asin(s) == RAtan2(s, RSqrt(RAbs(RSub(R1, RMul(s, s)))))
Euler(q) ==
  LET w == VAt(q, 1)  x == VAt(q, 2)  y == VAt(q, 3)  z == VAt(q, 4) IN
  V3(RAtan2(RMul(R2, RAdd(RMul(w, x), RMul(y, z))), RSub(R1, RMul(R2, RAdd(RMul(x, x), RMul(y, y))))),
     Asin(RMul(R2, RSub(RMul(w, y), RMul(z, x)))),
     RAtan2(RMul(R2, RAdd(RMul(w, z), RMul(x, y))), RSub(R1, RMul(R2, RAdd(RMul(y, y), RMul(z, z))))))
Steep(q) == RLt(RE(14, -1), RAbs(Y(Euler(q))))
TrajChecks(e) ==
  LET lo == e.lo  at == e.at  hi == e.hi  h == e.h
      before == RLt(at.t, world.stat)
      moving == RLe(world.stat, lo.t) /\ RLe(hi.t, world.max)
      turn == VScale(RDiv(R1, RMul(R2, h)), QToRotVec(QMul(QInv(lo.q), hi.q)))
      rateOk(w, loose) == RLe(Gap(turn, w), RAdd(RMul(RE(2, -5), RAdd(R1, VNorm(w))), loose))
      eulerOk == Steep(at.q) \/ Steep(lo.q) \/ Steep(hi.q)
                 \/ IsSlope(Euler(lo.q), Euler(hi.q), h, at.w, RMul(h, Gap(lo.al, hi.al)))
                 \/ RLt(RI(3), VNorm(VSub(Euler(lo.q), Euler(hi.q))))
  IN Chk("C23", "unit", QUnit(lo.q, Fine) /\ QUnit(at.q, Fine) /\ QUnit(hi.q, Fine))
     \cup Chk("C23", "rest", ~before \/ (AtRest(at) /\ Near(at.p, StartP) /\ QNear(at.q, StartQ, Fine)))
     \cup Chk("C23", "closed form", world.kind # "cyclic" \/ (Near(at.p, CyclicP(at.t)) /\ QNear(at.q, CyclicQ(at.t), Fine)))
     \cup Chk("C23", "start", at.t # world.stat \/ (Near(at.p, StartP) /\ QNear(at.q, StartQ, Fine)
                 /\ RLe(VNorm(at.v), RMul(RE(1, -6), RAdd(R1, VNorm(at.a))))
                 /\ RLe(VNorm(at.w), RMul(RE(1, -6), RAdd(R1, VNorm(at.al))))))
     \cup Chk("C23", "no jump", ~(RLe(lo.t, world.stat) /\ RLe(world.stat, hi.t)) \/
                 (/\ RLe(Gap(lo.p, hi.p), RMul(RE(1, -6), RAdd(R1, VNorm(hi.a))))
                  /\ QNear(lo.q, hi.q, RMul(RE(1, -6), RAdd(R1, VNorm(hi.al))))))
     \cup Chk("C23", "end", ~(world.kind = "spline" /\ at.t = world.max /\ world.noisy = 0) \/
                 (Near(at.p, world.last) /\ QNear(at.q, RollPitchYaw(world.lasta), RE(1, -8))))
     \cup (IF ~moving THEN {} ELSE
           Chk("C23", "velocity", IsSlope(lo.p, hi.p, h, at.v, RMul(h, Gap(lo.a, hi.a))))
           \cup Chk("C23", "acceleration", IsSlope(lo.v, hi.v, h, at.a, Gap(lo.a, hi.a)))
           \cup Chk("C23", "angular acceleration", IsSlope(lo.w, hi.w, h, at.al, Gap(lo.al, hi.al)))
           \cup Chk("C23", "angular rate", rateOk(at.w, RMul(h, Gap(lo.al, hi.al)))
                      \* KNOWN-FINDING: the spline returns the derivative of its Euler angles
                      \/ (world.kind = "spline" /\ eulerOk)))

(* ---------------------------------------------------------------- C24: whole simulations *)
(* e.a and e.b: the same simulation with the same seed twice in one process *)
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE Times(q, n - 1) \o q[n].t
Sound(r) ==
  LET o == r.obs IN
  /\ RFinite(o.b.p) /\ RFinite(o.b.v) /\ RFinite(o.b.a) /\ RFinite(o.b.w) /\ RFinite(o.b.al) /\ QUnit(o.b.q, RE(1, -6))
  /\ \A x \in Range(o.imus) : QUnit(x.q, RE(1, -6)) /\ RFinite(x.p) /\ RFinite(x.ba) /\ RFinite(x.bg)
  /\ \A x \in Range(o.gpss) : RFinite(x.p)
  /\ \A x \in Range(o.cams) \cup Range(o.fids) : QUnit(x.q, RE(1, -6)) /\ RFinite(x.p)
  /\ \A x \in Range(o.augs) : QUnit(x.q, RE(1, -6)) /\ RFinite(x.p) /\ RLe(x.t, o.cur)
  /\ r.P.r = o.n /\ r.P.c = o.n /\ MSymmetric(r.P, RE(1, -6)) /\ MPsd(r.P, RE(1, -7))
TwiceChecks(e) ==
  LET n == Len(e.a.order) IN
  Chk("C24", "same messages again", e.a.order = e.b.order)
  \cup Chk("C24", "same result again", e.a.obs = e.b.obs /\ e.a.P = e.b.P)
  \cup Chk("C24", "replayed in order of time", \A k \in 1..(n - 1) : RLe(e.a.order[k].t, e.a.order[k + 1].t))
  \cup Chk("C24", "every message replayed", Times(e.a.order, n) = e.a.times)
  \cup Chk("C27", "sound at the end", Sound(e.a))

(* ---------------------------------------------------------------- C27, C28: the simulation program *)
(* e.a: one run of the program; a file is [f, cols, n rows, bad rows of another width, finite,   *)
(* first column of every row, k kept rows, c the kept rows by column].                            *)
NumStr(k) == ToString(k)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
QAngle(p, q) == VNorm(QToRotVec(QMul(QInv(p), q)))
Name(base, k) == base \o "_" \o NumStr(k)
File(a, name) == a.files[CHOOSE k \in 1..Len(a.files) : a.files[k].f = name]
HasFile(a, name) == \E k \in 1..Len(a.files) : a.files[k].f = name
HasCols(x, base, n) == \A k \in 0..(n - 1) : Name(base, k) \in DOMAIN x.c
At(x, base, n, row) == Cat([k \in 1..n |-> VAt(x.c[Name(base, k - 1)], row)])
Rows(x) == 1..x.k
Rising(v) == \A k \in 1..(VLen(v) - 1) : RLe(VAt(v, k), VAt(v, k + 1))
Quats == {"body_ang_pos", "imu_ang_pos", "cam_ang_pos", "board_meas_ang", "aug_ang", "fid_ang",
          "imu_ang_pos_1", "imu_ang_pos_2", "cam_ang_pos_1", "cam_ang_pos_2", "cam_ang_pos_3", "cam_ang_pos_4"}
Covs == {<<"body_cov", 18>>, <<"imu_ext_cov", 6>>, <<"imu_int_cov", 6>>, <<"gps_cov", 3>>, <<"cam_cov", 6>>, <<"fid_cov", 6>>}
FileOk(x) ==
  /\ x.bad = 0 /\ x.finite
  /\ x.cols[1] = "time" => Rising(x.first)
  /\ \A q \in Quats : HasCols(x, q, 4) => \A r \in Rows(x) : QUnit(At(x, q, 4, r), RE(1, -4))
  /\ \A p \in Covs : HasCols(x, p[1], p[2]) => \A r \in Rows(x) : \A k \in 1..p[2] : RLe(R0, VAt(At(x, p[1], p[2], r), k))
HealthyRun(e) ==
  Chk("C27", "the program ends normally", e.a.rc = 0)
  \cup Chk("C27", "its files are sound", \A k \in 1..Len(e.a.files) : FileOk(e.a.files[k]))
  \cup Chk("C27", "it reports the body state", e.kind = "made" \/ HasFile(e.a, "body_state.csv"))
Digits(a, b) == VNearEach(a, b, RE(1, -6), RE(2, -5))
Turns(a, b) == QNear(a, b, RE(2, -5))
(* the body on its cyclic trajectory *)
CfgPos(c, t) == Wave(c.pa, c.pf, c.po, t)
CfgAng(c, t) == RollPitchYaw(Wave(c.aa, c.af, c.ao, t))
CfgVel(c, t) == [k \in 1..6 |-> LET i3 == (k + 1) \div 2  w == RMul(RMul(R2, PiQ), VAt(c.pf, i3)) IN
     RMul(RMul(RDiv(c.pa, R2), w), RSin(RMul(w, t)))[((k + 1) % 2) + 1]]
Since(c, t) == LET d == RSub(t, c.stat) IN IF RLt(d, R0) THEN R0 ELSE d
TruthOk(e, x) ==
  LET c == e.cfg IN
  /\ x.n = RFloor(RMul(RAdd(c.max, R1), c.log))
  /\ \A k \in 1..VLen(x.first) : Digits(VAt(x.first, k), RDiv(RI(k - 1), c.log))
  /\ \A r \in Rows(x) : LET t == Since(c, VAt(x.c["time"], r)) IN
       /\ VNear(At(x, "body_pos", 3, r), CfgPos(c, t), RE(1, -4), R0)
       /\ VNear(At(x, "body_vel", 3, r), CfgVel(c, t), RE(1, -4), R0)
       /\ QNear(At(x, "body_ang_pos", 4, r), CfgAng(c, t), RE(1, -4))
  /\ \A j \in 1..Len(c.sensors) : LET s == c.sensors[j] IN \A r \in Rows(x) :
       CASE s.k = "imu" -> /\ HasCols(x, Name("imu_pos", j), 3) /\ Digits(At(x, Name("imu_pos", j), 3, r), s.p)
                           /\ Turns(At(x, Name("imu_ang_pos", j), 4, r), s.q)
                           /\ Digits(At(x, Name("imu_acc_bias", j), 3, r), s.ba)
                           /\ Digits(At(x, Name("imu_gyr_bias", j), 3, r), s.bg)
         [] s.k = "cam" -> /\ HasCols(x, Name("cam_pos", j), 3) /\ Digits(At(x, Name("cam_pos", j), 3, r), s.p)
                           /\ Turns(At(x, Name("cam_ang_pos", j), 4, r), s.q)
         [] OTHER -> /\ HasCols(x, Name("gps_pos", j), 3) /\ Digits(At(x, Name("gps_pos", j), 3, r), s.p)
                     /\ Digits(x.c["ref_lat"], [k \in 1..(2 * x.k) |-> VAt(c.ref, 1)[((k + 1) % 2) + 1]])
                     /\ Digits(VAt(x.c["ref_lon"], r), VAt(c.ref, 2)) /\ Digits(VAt(x.c["ref_alt"], r), VAt(c.ref, 3))
                     /\ Digits(VAt(x.c["ref_heading"], r), c.head)
BoardsOk(e) ==
  LET c == e.cfg IN
  IF Len(c.boards) = 0 THEN ~HasFile(e.a, "board_truth.csv") ELSE
  /\ HasFile(e.a, "board_truth.csv")
  /\ LET x == File(e.a, "board_truth.csv")
         at(r) == Cat(<<VAt(x.c["pos_x"], r), VAt(x.c["pos_y"], r), VAt(x.c["pos_z"], r)>>)
         qt(r) == Cat(<<VAt(x.c["quat_w"], r), VAt(x.c["quat_x"], r), VAt(x.c["quat_y"], r), VAt(x.c["quat_z"], r)>>) IN
     /\ x.n = Len(c.boards)
     /\ \A b \in Range(c.boards) : \E r \in Rows(x) : Digits(at(r), b.p) /\ Turns(qt(r), b.q)
(* what a sensor's own file says while its calibration is not estimated *)
MessageCount(e, s) == RFloor(RMul(e.cfg.max, s.rate))
CountOk(e, s, x, limited) ==
  IF limited /\ RLt(s.log, RMul(RQ(12, 10), s.rate)) THEN x.n <= 2 + RFloor(RMul(RAdd(e.cfg.max, R1), s.log))
  ELSE x.n = MessageCount(e, s)
ImuFileOk(e, s, x) ==
  /\ (HasCols(x, "imu_ext_cov", 6) <=> s.ext) /\ (HasCols(x, "imu_int_cov", 6) <=> s.int)
  /\ CountOk(e, s, x, TRUE)
  /\ \A r \in Rows(x) : /\ s.ext \/ (Digits(At(x, "imu_pos", 3, r), s.p) /\ Turns(At(x, "imu_ang_pos", 4, r), s.q))
                        /\ s.int \/ (Digits(At(x, "imu_acc_bias", 3, r), s.ba) /\ Digits(At(x, "imu_gyr_bias", 3, r), s.bg))
GpsFileOk(e, s, x) ==
  /\ (HasCols(x, "gps_cov", 3) <=> s.ext) /\ CountOk(e, s, x, TRUE)
  /\ \A r \in Rows(x) : /\ VAt(x.c["is_initialized"], r) = R1
                        /\ Digits(Cat(<<VAt(x.c["ref_lat"], r), VAt(x.c["ref_lon"], r), VAt(x.c["ref_alt"], r)>>), e.cfg.ref)
                        /\ Digits(VAt(x.c["ref_heading"], r), e.cfg.head)
CamFileOk(s, x) == \A r \in Rows(x) : s.ext \/ (Digits(At(x, "cam_pos", 3, r), s.p) /\ Turns(At(x, "cam_ang_pos", 4, r), s.q))
FidFileOk(e, s, x) ==
  /\ (HasCols(x, "cam_cov", 6) <=> s.ext) /\ (HasCols(x, "fid_cov", 6) <=> s.fext) /\ CamFileOk(s, x)
  /\ CountOk(e, s, x, FALSE) /\ \A r \in Rows(x) : VAt(x.c["board"], r) = RI(s.fid)
SensorFileOk(e, j) ==
  LET s == e.cfg.sensors[j]
      logged == RLt(R0, s.log) /\ MessageCount(e, s) > 0
      imu == Name("imu", j) \o ".csv"  gps == Name("gps", j) \o ".csv"
      fid == Name("fiducial", j) \o ".csv"  mck == Name("msckf", j) \o ".csv" IN
  /\ HasFile(e.a, imu) <=> (s.k = "imu" /\ logged)
  /\ HasFile(e.a, gps) <=> (s.k = "gps" /\ logged)
  /\ HasFile(e.a, fid) <=> (s.k = "cam" /\ logged /\ s.fid > 0)
  /\ HasFile(e.a, mck) => (s.k = "cam" /\ logged /\ s.feat)
  /\ (s.k = "imu" /\ logged) => ImuFileOk(e, s, File(e.a, imu))
  /\ (s.k = "gps" /\ logged) => GpsFileOk(e, s, File(e.a, gps))
  /\ (s.k = "cam" /\ logged /\ s.fid > 0) => FidFileOk(e, s, File(e.a, fid))
  /\ HasFile(e.a, mck) => (CamFileOk(s, File(e.a, mck)) /\ (HasCols(File(e.a, mck), "cam_cov", 6) <=> s.ext))
RECURSIVE OwnSize(_, _)
OwnSize(c, j) == IF j = 0 THEN 18 ELSE OwnSize(c, j - 1) +
  LET s == c.sensors[j] IN
  CASE s.k = "imu" -> (IF s.ext THEN 6 ELSE 0) + (IF s.int THEN 6 ELSE 0)
    [] s.k = "cam" -> (IF s.ext THEN 6 ELSE 0) + (IF s.fid > 0 /\ s.fext THEN 6 ELSE 0)
    [] OTHER -> IF s.ext THEN 3 ELSE 0
SizeOk(e, x) ==
  LET c == e.cfg  base == OwnSize(c, Len(c.sensors)) IN
  \A r \in Rows(x) : LET n == RFloor(VAt(x.c["state_size"], r)) IN
    /\ n >= base /\ (n - base) % 6 = 0 /\ (c.pol = 0 => n = base)
AloneImu(c) == {j \in 1..Len(c.sensors) : c.sensors[j].k = "imu"} = {1}
TracksTruth(e, x) ==
  LET c == e.cfg IN
  \A r \in Rows(x) : LET t == Since(c, VAt(x.c["time"], r)) IN
    /\ RLe(Gap(At(x, "body_pos", 3, r), CfgPos(c, t)), RQ(1, 4))
    /\ RLe(QAngle(At(x, "body_ang_pos", 4, r), CfgAng(c, t)), RQ(1, 10))
MadeChecks(e) ==
  Chk("C28", "ends normally", e.a.rc = 0)
  \cup (IF e.a.rc # 0 THEN {} ELSE
    Chk("C28", "truth file", HasFile(e.a, "body_truth.csv") /\ TruthOk(e, File(e.a, "body_truth.csv")))
    \cup Chk("C28", "board file", BoardsOk(e))
    \cup Chk("C28", "sensor files", \A j \in 1..Len(e.cfg.sensors) : SensorFileOk(e, j))
    \cup Chk("C28", "state size", Len(e.cfg.sensors) = 0 \/ ~HasFile(e.a, "body_state.csv") \/ SizeOk(e, File(e.a, "body_state.csv")))
    \cup Chk("C28", "follows the truth", ~(e.cfg.exact /\ AloneImu(e.cfg)) \/ (HasFile(e.a, "body_state.csv") /\ TracksTruth(e, File(e.a, "body_state.csv")))))
ProgramChecks(e) ==
  HealthyRun(e)
  \cup (IF e.kind = "made" THEN MadeChecks(e) ELSE {})
  \cup Chk("C24", "the program repeats itself", "b" \notin DOMAIN e \/ e.a = e.b)

(* ---------------------------------------------------------------- trace *)
Checks(e) ==
  CASE e.op = "traj" -> TrajChecks(e)
    [] e.op = "simu" -> ImuChecks(e)
    [] e.op = "sgps" -> GpsChecks(e)
    [] e.op = "scam" -> CamChecks(e)
    [] e.op = "twice" -> TwiceChecks(e)
    [] e.op = "program" -> ProgramChecks(e)
    [] OTHER -> {}
Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == i = 1 /\ bad = {} /\ world = <<>> /\ ids = {} /\ trk = {} /\ frm = -1
Next ==
  /\ i <= N
  /\ LET e == Trace[i] IN
     \E f \in {Checks(e)} :
       /\ Report(f) /\ bad' = bad \cup f
       /\ world' = (IF e.op = "world" THEN e ELSE world)
       /\ ids' = (IF e.op \in {"simu", "sgps", "scam"} THEN ids \cup {e.sid} ELSE ids)
       /\ trk' = (IF e.op = "scam" THEN trk \cup Range(e.trs) \cup {d.id : d \in Range(e.bds)} ELSE trk)
       /\ frm' = (IF e.op = "scam" /\ Len(e.ms) > 0 THEN e.ms[Len(e.ms)].f ELSE frm)
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
