------------------------------- MODULE Geo3 -------------------------------
(***************************************************************************)
(* 3-vectors, unit quaternions (w, x, y, z) and rotations, defined on the  *)
(* reals of module Num.                                                    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

R0 == RI(0)
R1 == RI(1)
R2 == RI(2)

V3(x, y, z) == x \o y \o z
Zero3 == VZero(3)
X(v) == VAt(v, 1)
Y(v) == VAt(v, 2)
Z(v) == VAt(v, 3)

Cross(a, b) ==
  V3(RSub(RMul(Y(a), Z(b)), RMul(Z(a), Y(b))),
     RSub(RMul(Z(a), X(b)), RMul(X(a), Z(b))),
     RSub(RMul(X(a), Y(b)), RMul(Y(a), X(b))))

Skew(v) ==
  [r |-> 3, c |-> 3, d |->
     R0 \o RNeg(Z(v)) \o Y(v) \o
     Z(v) \o R0 \o RNeg(X(v)) \o
     RNeg(Y(v)) \o X(v) \o R0]

(* ---- quaternions ---- *)
QIdent == RI(1) \o RI(0) \o RI(0) \o RI(0)
QW(q) == VAt(q, 1)
QV(q) == VSlice(q, 2, 3)
QMul(p, q) ==
  RSub(RMul(QW(p), QW(q)), VDot(QV(p), QV(q))) \o
  VAdd(VAdd(VScale(QW(p), QV(q)), VScale(QW(q), QV(p))), Cross(QV(p), QV(q)))
QConj(q) == QW(q) \o VScale(RI(-1), QV(q))
QInv(q) == VScale(RDiv(R1, VDot(q, q)), QConj(q))
QRot(q, v) == QV(QMul(QMul(q, RI(0) \o v), QInv(q)))
QFromRotVec(v) ==
  LET a == VNorm(v)
      h == RDiv(a, R2)
  IN IF RLt(a, RE(1, -9)) THEN QIdent
     ELSE RCos(h) \o VScale(RDiv(RSin(h), a), v)
(* the rotation vector with angle in [0, pi] *)
QToRotVec(q) ==
  LET p == IF RLt(QW(q), R0) THEN VScale(RI(-1), q) ELSE q
      n == VNorm(QV(p))
      a == RMul(R2, RAtan2(n, QW(p)))
  IN IF RLt(n, RE(1, -12)) THEN Zero3 ELSE VScale(RDiv(a, n), QV(p))
(* q and -q are the same rotation *)
QNear(p, q, tol) ==
  VNear(p, q, tol, R0) \/ VNear(p, VScale(RI(-1), q), tol, R0)
QUnit(q, tol) == RLe(RAbs(RSub(VNorm(q), R1)), tol)
QSlerp(p, q, t) ==
  LET d0 == VDot(p, q)
      s  == IF RLt(d0, R0) THEN VScale(RI(-1), q) ELSE q
      d  == QMul(QInv(p), s)
  IN QMul(p, QFromRotVec(VScale(t, QToRotVec(d))))
QMat(q) ==
  LET c1 == QRot(q, V3(R1, R0, R0))
      c2 == QRot(q, V3(R0, R1, R0))
      c3 == QRot(q, V3(R0, R0, R1))
  IN [r |-> 3, c |-> 3, d |->
        X(c1) \o X(c2) \o X(c3) \o Y(c1) \o Y(c2) \o Y(c3) \o Z(c1) \o Z(c2) \o Z(c3)]
=============================================================================
