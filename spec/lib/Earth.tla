------------------------------- MODULE Earth -------------------------------
(* The WGS84 ellipsoid and the frames of the filter on it. *)
EXTENDS Geo3
WgsA == RI(6378137)
WgsF == RDiv(R1, RAdd(RI(298), RE(257223563, -9)))
E2 == RMul(WgsF, RSub(R2, WgsF))
PiQ == RMul(RI(4), RAtan2(R1, R1))
Rad(d) == RDiv(RMul(d, PiQ), RI(180))
Ecef(lla) ==
  LET sa == RSin(Rad(X(lla)))  ca == RCos(Rad(X(lla)))
      so == RSin(Rad(Y(lla)))  co == RCos(Rad(Y(lla)))
      n == RDiv(WgsA, RSqrt(RSub(R1, RMul(E2, RMul(sa, sa)))))
      nh == RAdd(n, Z(lla))
  IN V3(RMul(nh, RMul(ca, co)), RMul(nh, RMul(ca, so)),
        RMul(RAdd(RMul(n, RSub(R1, E2)), Z(lla)), sa))
(* east, north and up at a reference, as rows *)
Axes(ref) ==
  LET sa == RSin(Rad(X(ref)))  ca == RCos(Rad(X(ref)))
      so == RSin(Rad(Y(ref)))  co == RCos(Rad(Y(ref)))
  IN [r |-> 3, c |-> 3, d |->
        RNeg(so) \o co \o R0 \o
        RNeg(RMul(sa, co)) \o RNeg(RMul(sa, so)) \o ca \o
        RMul(ca, co) \o RMul(ca, so) \o sa]
Toward(v, ang) ==      \* local to east-north-up: turned clockwise by ang
  V3(RAdd(RMul(RCos(ang), X(v)), RMul(RSin(ang), Y(v))),
     RSub(RMul(RCos(ang), Y(v)), RMul(RSin(ang), X(v))), Z(v))
(* the earth-fixed position of a point of the local frame at a reference with a heading *)
LocalToEcef(v, ref, heading) == VAdd(Ecef(ref), MVec(MT(Axes(ref)), Toward(v, heading)))
EcefToLocal(p, ref, heading) == Toward(MVec(Axes(ref), VSub(p, Ecef(ref))), RNeg(heading))
=============================================================================
