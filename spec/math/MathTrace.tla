----------------------------- MODULE MathTrace -----------------------------
(***************************************************************************)
(* The linear-algebra and frame-conversion building blocks of the filter,  *)
(* specified by what they must achieve, and the validation of recorded     *)
(* calls of the real functions against them.                               *)
(***************************************************************************)
EXTENDS Earth, Json, IOUtils, TLC

CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, bad
vars == <<i, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}
Min(a, b) == IF a < b THEN a ELSE b

(* ---------------------------------------------------------------- C17: measurements *)
FullRank == {0, 6, 7, 12}        \* kinds of Jacobian with independent columns
Big(m) == RAdd(R1, MMax(m))          \* 1 + largest entry
SameInfo(a, b, scale) == MNear(a, b, RMul(RE(1, -9), RMul(scale, scale)), R0)
Same(a, b) == MNear(a, b, R0, R0)
Col(v) == [r |-> VLen(v), c |-> 1, d |-> v]
(* what remains of H after eliminating the columns of F: H'(I - F (F'F)^-1 F')G *)
Remaining(F, H, G) ==
  MSub(MMul(MT(H), G), MMul(MMul(MT(H), F), MMul(MInv(MMul(MT(F), F)), MMul(MT(F), G))))
NullChecks(e) ==
  LET m == e.m  f == e.f  O == e.oH  good == e.kf \in FullRank
      sc == Big(e.Hx)
  IN Chk("C17", "rows", O.r = m - f /\ O.c = e.Hx.c /\ e.olen = m - f)
     \cup (IF O.r # m - f \/ O.c # e.Hx.c \/ e.olen # m - f THEN {}
           ELSE IF e.n = 0
           THEN (* the state Jacobian was the identity: the result is the projector itself *)
                Chk("C17", "orthonormal", MNear(MMul(O, MT(O)), MEye(m - f), RE(1, -9), R0))
                \cup Chk("C17", "nuisance", MNear(MMul(O, e.Hf), MZero(m - f, f), RMul(RE(1, -9), Big(e.Hf)), R0))
                \cup Chk("C17", "residual", VNear(MVec(O, e.res), e.ores, RE(1, -9), R0))
           ELSE IF good
           THEN Chk("C17", "information", SameInfo(MMul(MT(O), O), Remaining(e.Hf, e.Hx, e.Hx), sc))
                \cup Chk("C17", "vector", SameInfo(MMul(MT(O), Col(e.ores)), Remaining(e.Hf, e.Hx, Col(e.res)), sc))
           ELSE {})
CompressChecks(e) ==
  LET H == e.H  O == e.oH  sc == Big(H)
  IN Chk("C17", "size", O.r <= Min(H.r, H.c) /\ O.c = H.c /\ e.olen = O.r)
     \cup (IF O.c # H.c \/ e.olen # O.r THEN {}
           ELSE IF H.r < H.c THEN Chk("C17", "wide", Same(O, H) /\ e.ores = e.res)
           ELSE IF O.r = 0
           THEN Chk("C17", "emptied", MNear(H, MZero(H.r, H.c), RE(1, -8), R0))
           ELSE Chk("C17", "compressed", SameInfo(MMul(MT(O), O), MMul(MT(H), H), sc))
                \cup Chk("C17", "compressed vector", SameInfo(MMul(MT(O), Col(e.ores)), MMul(MT(H), Col(e.res)), RMul(R2, sc))))

(* ---------------------------------------------------------------- C02: blocks *)
(* after insertion at p (0-based) of m rows and columns, index j of the result comes from *)
From(j, p, m) == IF j <= p THEN j ELSE IF j <= p + m THEN 0 ELSE j - m
BlockChecks(e) ==
  LET n == e.n  m == e.m  p == e.at
      idx == [j \in 1..(n + m) |-> From(j, p, m)]
      want == MPaste(MGather(e.A, idx), p + 1, p + 1, e.B)
  IN Chk("C02", "insert", Same(e.ins, want))
     \cup Chk("C02", "remove", Same(e.rem, e.A))
     \cup Chk("C09", "stacked root", MNear(MMul(MT(e.qr), e.qr),
             MAdd(MMul(MT(e.A), e.A), MMul(MT(e.C), e.C)), RE(1, -9), R0))
     \cup Chk("C24", "bounded below", \A j \in 1..n :
             VAt(e.mb, j) = (IF RLt(VAt(e.v, j), RQ(1, 4)) THEN RQ(1, 4) ELSE VAt(e.v, j)))

(* ---------------------------------------------------------------- C26: frames *)
Mm == RE(1, -3)
Tight == RE(1, -6)
Within(v, lo, hi) == RLe(lo, v) /\ RLe(v, hi)
Deg == RE(1, -9)
GoodLla(l) == Within(X(l), RI(-90), RI(90)) /\ Within(Y(l), RI(-180), RI(180))
GeoChecks(e) ==
  LET ec == Ecef(e.ref)
      pe == VAdd(ec, MVec(MT(Axes(e.ref)), e.off))
  IN Chk("C26", "to earth-fixed", VNear(e.ecef, ec, Tight, R0))
     \cup Chk("C26", "to geodetic", GoodLla(e.back) /\ VNear(Ecef(e.back), ec, Mm, R0)
                 /\ RLe(RAbs(RSub(Z(e.back), Z(e.ref))), Mm))
     \cup Chk("C26", "offset to earth-fixed", VNear(e.pe, pe, Tight, R0))
     \cup Chk("C26", "earth-fixed to offset", VNear(e.enu, e.off, Tight, R0))
     \cup Chk("C26", "offset to geodetic", GoodLla(e.pl) /\ VNear(Ecef(e.pl), pe, Mm, R0))
     \cup Chk("C26", "usable", VNear(e.ple, pe, Mm, R0) /\ e.out = "")
     \cup Chk("C26", "geodetic to offset", VNear(e.enu2, e.off, Mm, R0))
     \cup Chk("C26", "local to world", VNear(e.env, Toward(e.off, e.ang), Tight, R0))
     \cup Chk("C26", "world to local", VNear(e.loc, Toward(e.off, RNeg(e.ang)), Tight, R0))
     \cup Chk("C26", "local round trip", VNear(e.rt, e.off, Tight, R0))
     \cup Chk("C26", "metres to degrees", VNear(VScale(RDiv(PiQ, RI(180)), VScale(WgsA, e.deg)), X(e.off), Tight, R0))

(* ---------------------------------------------------------------- C26: rotations *)
Sharp == RE(1, -9)
Blunt == RE(1, -4)              \* the OpenCV conversion rounds rotations within 1e-5 of the axes
QAx(ang, k) == QFromRotVec([j \in 1..6 |-> IF (j + 1) \div 2 = k THEN ang[((j + 1) % 2) + 1] ELSE 0])
Mat3(q) == QMat(q)
(* right Jacobian of the rotation group by its series, valid for every angle *)
RECURSIVE Series(_, _, _, _)
Series(K, T, k, left) ==
  IF left = 0 THEN T
  ELSE MAdd(T, Series(K, MScale(RQ(-1, k + 1), MMul(T, K)), k + 1, left - 1))
RightJac(v) == Series(Skew(v), MEye(3), 1, 40)
RotChecks(e) ==
  Chk("C26", "vector to quaternion", QUnit(e.vq, Sharp) /\ QNear(e.vq, e.q, Sharp))
  \cup Chk("C26", "quaternion to vector", QNear(QFromRotVec(e.qv), e.q, Sharp) /\ RLe(VNorm(e.qv), RAdd(PiQ, Sharp)))
  \cup Chk("C26", "rodrigues", QNear(QFromRotVec(e.rod), e.q, Blunt))
  \cup Chk("C26", "from rodrigues", QUnit(e.rodq, Sharp) /\ QNear(e.rodq, e.q, Blunt))
  \cup Chk("C26", "list to quaternion", QUnit(e.sq, Sharp) /\ QNear(e.sq, e.q, Sharp) /\ e.s3 = QIdent)
  \cup Chk("C26", "list to vector", e.svo = e.sv)
  \cup Chk("C26", "vector copy", e.cve = e.v)
  \cup Chk("C26", "euler", QNear(e.eq, QMul(QFromRotVec(V3(R0, R0, Z(e.eul))),
               QMul(QFromRotVec(V3(R0, Y(e.eul), R0)), QFromRotVec(V3(X(e.eul), R0, R0)))), Sharp))
  \cup Chk("C26", "skew", Same(e.skew, Skew(e.v)))
  \cup Chk("C26", "rotation jacobian", MNear(e.jac, RightJac(QToRotVec(e.q)), RE(1, -6), R0)
               \/ RLe(RSub(PiQ, Tight), e.ang))

Checks(e) ==
  CASE e.op = "null" -> NullChecks(e)
    [] e.op = "compress" -> CompressChecks(e)
    [] e.op = "blocks" -> BlockChecks(e)
    [] e.op = "geo" -> GeoChecks(e)
    [] e.op = "rot" -> RotChecks(e)
    [] OTHER -> {}

Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == i = 1 /\ bad = {}
Next == /\ i <= N
        /\ \E f \in {Checks(Trace[i])} : Report(f) /\ bad' = bad \cup f
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
