----------------------------- MODULE FilterNum -----------------------------
(***************************************************************************)
(* The numeric part of the filter: estimate, covariance, prediction,       *)
(* correction and the measurement models.                                  *)
(*                                                                         *)
(* An estimate x is a record                                               *)
(*   b    |-> [p, v, a, q, w, al]       the body                           *)
(*   imus |-> <<[p, q, ba, bg], ...>>   gpss |-> <<[p], ...>>              *)
(*   cams, fids, augs |-> <<[p, q], ...>>                                  *)
(* parallel to the lists of a FilterCore record s.                         *)
(***************************************************************************)
EXTENDS FilterCore, Geo3

Tick(t) == RQ(t, 1024)
Gravity == V3(R0, R0, RQ(980665, 100000))

(* ---- rotation-vector Jacobians: exp(f + d) = exp(f) exp(Jr d) = exp(Jl d) exp(f) ---- *)
RightJac(q) ==
  LET f == QToRotVec(q)
      n == VNorm(f)
      S == Skew(f)
      c1 == RDiv(RSub(R1, RCos(n)), RMul(n, n))
      c2 == RDiv(RSub(n, RSin(n)), RMul(n, RMul(n, n)))
  IN IF RLt(n, RE(1, -7)) THEN MSub(MEye(3), MScale(RQ(1, 2), S))
     ELSE MAdd(MSub(MEye(3), MScale(c1, S)), MScale(c2, MMul(S, S)))
LeftJac(q) == MT(RightJac(q))

(* ---- prediction ---- *)
BodyPredict(b, dt, zero) ==
  LET acc == IF zero THEN Zero3 ELSE VSub(b.a, Gravity)
      v == VAdd(b.v, VScale(dt, acc))
  IN [b EXCEPT !.v = v,
               !.p = VAdd(b.p, VScale(dt, v)),
               !.q = QMul(QFromRotVec(VScale(dt, b.w)), b.q)]
(* F couples position to velocity only *)
TransF(n, dt) ==
  MPaste(MEye(n), 1, 4, MScale(dt, MEye(3)))
CovPredict(P, Q, dt) ==
  LET F == TransF(P.r, dt)
  IN MMul(MMul(F, MAdd(P, MScale(dt, MDiag(Q)))), MT(F))
(* process noise: body, then each block's own stability; clones have none *)
RECURSIVE NoiseOf(_, _)
NoiseOf(blocks, stab) ==
  IF blocks = <<>> THEN <<>>
  ELSE (IF Head(blocks).lab \in DOMAIN stab THEN stab[Head(blocks).lab]
        ELSE VZero(Head(blocks).sz))
       \o NoiseOf(Tail(blocks), stab)

(* ---- correction ---- *)
Seg(d, at) == VSlice(d, at + 1, 3)
RotBy(q, d) == QMul(q, QFromRotVec(d))
Pose(x, d, at) == [x EXCEPT !.p = VAdd(@, Seg(d, at)), !.q = RotBy(@, Seg(d, at + 3))]
Correct(s, x, d) ==
  LET b == x.b IN
  [x EXCEPT
    !.b = [b EXCEPT !.p = VAdd(@, Seg(d, 0)), !.v = VAdd(@, Seg(d, 3)),
                    !.a = VAdd(@, Seg(d, 6)), !.q = RotBy(@, Seg(d, 9)),
                    !.w = VAdd(@, Seg(d, 12)), !.al = VAdd(@, Seg(d, 15))],
    !.imus = [k \in 1..Len(@) |->
      LET i == s.imus[k]
          y == IF i.ext THEN Pose(x.imus[k], d, Start(s, "ie" \o ToString(i.id))) ELSE x.imus[k]
          at == Start(s, "ii" \o ToString(i.id))
      IN IF i.int THEN [y EXCEPT !.ba = VAdd(@, Seg(d, at)), !.bg = VAdd(@, Seg(d, at + 3))]
         ELSE y],
    !.gpss = [k \in 1..Len(@) |->
      IF s.gpss[k].ext
      THEN [x.gpss[k] EXCEPT !.p = VAdd(@, Seg(d, Start(s, "g" \o ToString(s.gpss[k].id))))]
      ELSE x.gpss[k]],
    !.cams = [k \in 1..Len(@) |->
      IF s.cams[k].ext THEN Pose(x.cams[k], d, Start(s, "c" \o ToString(s.cams[k].id)))
      ELSE x.cams[k]],
    !.fids = [k \in 1..Len(@) |->
      IF s.fids[k].ext THEN Pose(x.fids[k], d, Start(s, "f" \o ToString(s.fids[k].id)))
      ELSE x.fids[k]],
    !.augs = [k \in 1..Len(@) |-> Pose(x.augs[k], d, Start(s, CloneLab(s.augs[k])))]]

(* The state vector: orientations as rotation vectors *)
BodyVec(b) == b.p \o b.v \o b.a \o QToRotVec(b.q) \o b.w \o b.al
PoseVec(y) == y.p \o QToRotVec(y.q)
ToVec(s, x) ==
  BodyVec(x.b)
  \o Cat([k \in 1..Len(s.imus) |->
       (IF s.imus[k].ext THEN PoseVec(x.imus[k]) ELSE <<>>) \o
       (IF s.imus[k].int THEN x.imus[k].ba \o x.imus[k].bg ELSE <<>>)])
  \o Cat([k \in 1..Len(s.gpss) |-> IF s.gpss[k].ext THEN x.gpss[k].p ELSE <<>>])
  \o Cat([k \in 1..Len(s.cams) |-> IF s.cams[k].ext THEN PoseVec(x.cams[k]) ELSE <<>>])
  \o Cat([k \in 1..Len(s.fids) |-> IF s.fids[k].ext THEN PoseVec(x.fids[k]) ELSE <<>>])
  \o Cat([k \in 1..Len(s.augs) |-> PoseVec(x.augs[k])])
SetPose(x, d, at) == [x EXCEPT !.p = Seg(d, at), !.q = QFromRotVec(Seg(d, at + 3))]
FromVec(s, x, d) ==
  [x EXCEPT
    !.b = [x.b EXCEPT !.p = Seg(d, 0), !.v = Seg(d, 3), !.a = Seg(d, 6),
                      !.q = QFromRotVec(Seg(d, 9)), !.w = Seg(d, 12), !.al = Seg(d, 15)],
    !.imus = [k \in 1..Len(@) |->
      LET i == s.imus[k]
          y == IF i.ext THEN SetPose(x.imus[k], d, Start(s, "ie" \o ToString(i.id)))
               ELSE x.imus[k]
          at == Start(s, "ii" \o ToString(i.id))
      IN IF i.int THEN [y EXCEPT !.ba = Seg(d, at), !.bg = Seg(d, at + 3)] ELSE y],
    !.gpss = [k \in 1..Len(@) |->
      IF s.gpss[k].ext
      THEN [x.gpss[k] EXCEPT !.p = Seg(d, Start(s, "g" \o ToString(s.gpss[k].id)))]
      ELSE x.gpss[k]],
    !.cams = [k \in 1..Len(@) |->
      IF s.cams[k].ext THEN SetPose(x.cams[k], d, Start(s, "c" \o ToString(s.cams[k].id)))
      ELSE x.cams[k]],
    !.fids = [k \in 1..Len(@) |->
      IF s.fids[k].ext THEN SetPose(x.fids[k], d, Start(s, "f" \o ToString(s.fids[k].id)))
      ELSE x.fids[k]]]

(* ---- Kalman update ---- *)
Kalman(P, H, r, R) ==
  LET PHt == MMul(P, MT(H))
      S == MAdd(MMul(H, PHt), R)
      K == MMul(PHt, MInv(S))
      IKH == MSub(MEye(P.r), MMul(K, H))
  IN [dx |-> MVec(K, r),
      P |-> MAdd(MMul(MMul(IKH, P), MT(IKH)), MMul(MMul(K, R), MT(K)))]
Update(s, x, P, H, r, R) ==
  LET k == Kalman(P, H, r, R) IN [x |-> Correct(s, x, k.dx), P |-> k.P]

(* ---- WGS84 ---- *)
WgsA == RI(6378137)
WgsF == RDiv(R1, RAdd(RI(298), RE(257223563, -9)))
WgsE2 == RMul(WgsF, RSub(R2, WgsF))
Rad(d) == RMul(d, RDiv(RAtan2(R0, RI(-1)), RI(180)))
LlaToEcef(g) ==
  LET sl == RSin(Rad(X(g)))  cl == RCos(Rad(X(g)))
      so == RSin(Rad(Y(g)))  co == RCos(Rad(Y(g)))
      N == RDiv(WgsA, RSqrt(RSub(R1, RMul(WgsE2, RMul(sl, sl)))))
      h == Z(g)
  IN V3(RMul(RAdd(N, h), RMul(cl, co)),
        RMul(RAdd(N, h), RMul(cl, so)),
        RMul(RAdd(RMul(N, RSub(R1, WgsE2)), h), sl))
EnuMat(ref) ==   \* rows: east, north, up in earth-fixed axes
  LET sl == RSin(Rad(X(ref)))  cl == RCos(Rad(X(ref)))
      so == RSin(Rad(Y(ref)))  co == RCos(Rad(Y(ref)))
  IN [r |-> 3, c |-> 3, d |->
       RNeg(so) \o co \o R0 \o
       RNeg(RMul(sl, co)) \o RNeg(RMul(sl, so)) \o cl \o
       RMul(cl, co) \o RMul(cl, so) \o sl]
EcefToEnu(e, ref) == MVec(EnuMat(ref), VSub(e, LlaToEcef(ref)))
EnuToLocal(u, ang) ==
  LET c == RCos(ang)  n == RSin(ang)
  IN V3(RSub(RMul(c, X(u)), RMul(n, Y(u))),
        RAdd(RMul(n, X(u)), RMul(c, Y(u))), Z(u))
LlaToLocal(g, ref, ang) == EnuToLocal(EcefToEnu(LlaToEcef(g), ref), ang)

(* ---- measurement models: prediction and derivative by the state vector ---- *)
MNeg(m) == MScale(RI(-1), m)
GpsPredict(b, a) == VAdd(b.p, QRot(b.q, a))
GpsJac(s, b, a, id, ext) ==
  LET R == QMat(b.q)
      H1 == MPaste(MZero(3, StateSize(s)), 1, 1, MEye(3))
      H2 == MPaste(H1, 1, 10, MNeg(MMul(MMul(R, Skew(a)), RightJac(b.q))))
  IN IF ext THEN MPaste(H2, 1, Start(s, "g" \o ToString(id)) + 1, R) ELSE H2

(* Board pose in the camera frame *)
BoardPos(b, c, f) == QRot(QInv(c.q), VSub(QRot(QInv(b.q), VSub(f.p, b.p)), c.p))
BoardAng(b, c, f) == QMul(QInv(c.q), QMul(QInv(b.q), f.q))
BoardJac(s, b, c, f, cid, cext, fid, fext) ==
  LET Rcb == MT(QMat(c.q))
      Rlc == MMul(Rcb, MT(QMat(b.q)))
      inb == QRot(QInv(b.q), VSub(f.p, b.p))
      ci == Start(s, "c" \o ToString(cid)) + 1
      fi == Start(s, "f" \o ToString(fid)) + 1
      H0 == MPaste(MZero(6, StateSize(s)), 1, 1, MNeg(Rlc))
      H1 == MPaste(H0, 1, 10, MMul(Rlc, MMul(Skew(VSub(f.p, b.p)), LeftJac(b.q))))
      H2 == MPaste(H1, 4, 10, MNeg(MMul(Rlc, LeftJac(b.q))))
      H3 == IF ~cext THEN H2
            ELSE MPaste(MPaste(MPaste(H2, 1, ci, MNeg(Rcb)),
                   1, ci + 3, MMul(Rcb, MMul(Skew(VSub(inb, c.p)), LeftJac(c.q)))),
                   4, ci + 3, MNeg(MMul(Rcb, LeftJac(c.q))))
  IN IF ~fext THEN H3
     ELSE MPaste(MPaste(H3, 1, fi, Rlc), 4, fi + 3, MMul(Rlc, LeftJac(f.q)))
BoardResid(b, c, f, zp, zq) ==
  VSub(zp, BoardPos(b, c, f)) \o QToRotVec(QMul(zq, QInv(BoardAng(b, c, f))))

(* IMU at rest: specific force is gravity seen from the IMU *)
GravInImu(b, m) == QRot(QInv(m.q), QRot(QInv(b.q), Gravity))
RestJac(s, b, m, id, ext, int) ==
  LET g == Skew(GravInImu(b, m))
      n == IF int THEN 6 ELSE 3
      ie == Start(s, "ie" \o ToString(id)) + 1
      ii == Start(s, "ii" \o ToString(id)) + 1
      H1 == MPaste(MZero(n, StateSize(s)), 1, 10,
                   MMul(g, MMul(MT(QMat(m.q)), RightJac(b.q))))
      H2 == IF ext THEN MPaste(H1, 1, ie + 3, MMul(g, RightJac(m.q))) ELSE H1
  IN IF int THEN MPaste(MPaste(H2, 1, ii, MEye(3)), 4, ii + 3, MEye(3)) ELSE H2
RestResid(b, m, int, acc, gyr) ==   \* measured minus predicted
  VSub(VSub(acc, m.ba), GravInImu(b, m)) \o (IF int THEN VSub(gyr, m.bg) ELSE <<>>)
(* IMU in motion: rigid-body acceleration and rate at the IMU *)
ImuPredict(b, m) ==
  LET inb(v) == QRot(QInv(b.q), v)
      w == inb(b.w)
      acc == VAdd(inb(b.a), VAdd(Cross(inb(b.al), m.p), Cross(w, Cross(w, m.p))))
  IN VAdd(m.ba, QRot(QInv(m.q), acc)) \o VAdd(m.bg, QRot(QInv(m.q), w))
ImuJac(s, b, m, id, ext, int) ==
  LET Ri == MT(QMat(m.q))
      Rb == MT(QMat(b.q))
      a == MVec(Rb, b.a)  w == MVec(Rb, b.w)  al == MVec(Rb, b.al)
      byw == MNeg(MAdd(MMul(Skew(w), Skew(m.p)), Skew(Cross(w, m.p))))
      bya == MSub(MAdd(Skew(a), MMul(byw, Skew(w))), MMul(Skew(m.p), Skew(al)))
      acc == VAdd(a, VAdd(Cross(al, m.p), Cross(w, Cross(w, m.p))))
      ie == Start(s, "ie" \o ToString(id)) + 1
      ii == Start(s, "ii" \o ToString(id)) + 1
      P(H, r, c, B) == MPaste(H, r, c, B)
      H1 == P(MZero(6, StateSize(s)), 1, 7, MMul(Ri, Rb))
      H2 == P(H1, 1, 10, MMul(Ri, MMul(bya, RightJac(b.q))))
      H3 == P(H2, 1, 13, MMul(Ri, MMul(byw, Rb)))
      H4 == P(H3, 1, 16, MNeg(MMul(Ri, MMul(Skew(m.p), Rb))))
      H5 == P(H4, 4, 10, MMul(Ri, MMul(Skew(w), RightJac(b.q))))
      H6 == P(H5, 4, 13, MMul(Ri, Rb))
      H7 == IF ~ext THEN H6
            ELSE P(P(P(H6, 1, ie, MMul(Ri, MAdd(Skew(al), MMul(Skew(w), Skew(w))))),
                   1, ie + 3, MMul(Skew(MVec(Ri, acc)), RightJac(m.q))),
                   4, ie + 3, MMul(Skew(MVec(Ri, w)), RightJac(m.q)))
  IN IF int THEN P(P(H7, 1, ii, MEye(3)), 4, ii + 3, MEye(3)) ELSE H7
BlockDiag(A, B) ==
  MPaste(MPaste(MZero(A.r + B.r, A.c + B.c), 1, 1, A), A.r + 1, A.c + 1, B)
Score(H, P, R, r) ==
  LET S == MAdd(MMul(H, MMul(P, MT(H))), R) IN VDot(r, MVec(MInv(S), r))

(* ---- comparison ---- *)
TolV == RE(1, -7)
NearV(a, b) == VNear(a, b, TolV, TolV)
NearQ(p, q) == QNear(p, q, TolV)
NearBody(x, y) ==
  /\ NearV(x.p, y.p) /\ NearV(x.v, y.v) /\ NearV(x.a, y.a)
  /\ NearQ(x.q, y.q) /\ NearV(x.w, y.w) /\ NearV(x.al, y.al)
NearPose(x, y) == NearV(x.p, y.p) /\ NearQ(x.q, y.q)
NearImu(x, y) == NearPose(x, y) /\ NearV(x.ba, y.ba) /\ NearV(x.bg, y.bg)
All2(Op(_, _), p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Op(p[k], q[k])
NearGps(x, y) == NearV(x.p, y.p)
NearCal(x, y) ==
  /\ All2(NearImu, x.imus, y.imus) /\ All2(NearGps, x.gpss, y.gpss)
  /\ All2(NearPose, x.cams, y.cams) /\ All2(NearPose, x.fids, y.fids)
NearEst(x, y) == NearBody(x.b, y.b) /\ NearCal(x, y) /\ All2(NearPose, x.augs, y.augs)
NearP(A, B) == MNearCov(A, B, RE(1, -7), RE(1, -12))
=============================================================================
