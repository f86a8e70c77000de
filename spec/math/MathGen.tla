------------------------------ MODULE MathGen ------------------------------
(***************************************************************************)
(* Scripts of calls of the building blocks: shapes, degeneracies, places   *)
(* and angles, with boundary values as likely as ordinary ones.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist
vars == <<hist>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Seed == Pick(1..1000000)
Chance(n, d) == Pick(1..d) <= n
Either(a, b) == IF Chance(1, 2) THEN Pick(a) ELSE Pick(b)

(* profile wide: a few large systems *)
Wide == PROFILE = "wide"
NullOp == LET f == Pick({1, 2, 3, 3, 3, 4}) IN
  [op |-> "null", f |-> f, m |-> f + Pick(IF Wide THEN 13..80 ELSE 1..12), n |-> Pick(IF Wide THEN {30, 60, 90} ELSE {0, 0, 1, 3, 8, 15}), kf |-> Pick(0..12),
   kx |-> Pick(0..12), seed |-> Seed]
CompressOp == LET n == Pick(IF Wide THEN 20..70 ELSE 1..12) IN
  [op |-> "compress", n |-> n, m |-> Pick(IF Wide THEN 40..240 ELSE 1..24), kx |-> Pick(0..12), seed |-> Seed]
BlockOp == LET n == Pick(2..9) IN
  [op |-> "blocks", n |-> n, m |-> Pick(1..4), at |-> Pick(0..n), k |-> Pick(1..9), seed |-> Seed]
LatE == {-90000000, -89999999, -89900000, -45000000, -1, 0, 1, 45000000, 89900000, 89999999, 90000000}
LonE == {-180000000, -179999999, -90000000, -1, 0, 1, 90000000, 135000000, 179999999, 180000000}
OffE == {0, 0, 1, -1, 1000, -1000, 100000, -100000}
GeoOp == [op |-> "geo", lat |-> Either(LatE, -90000000..90000000), lon |-> Either(LonE, -180000000..180000000),
          alt |-> Either({0, -400, 8800}, -500..20000), e |-> Either(OffE, -5000..5000), n |-> Either(OffE, -5000..5000),
          u |-> Either({0}, -300..3000), h |-> Either({0, 1571, 3142, -1571, -3142}, -3142..3142), seed |-> Seed]
RotOp == [op |-> "rot", a |-> Pick(0..22), x |-> Pick(0..9), neg |-> Pick(0..1), len |-> Pick(1..12), seed |-> Seed]
Op == CASE PROFILE \in {"info", "wide"} -> IF Chance(1, 2) THEN NullOp ELSE CompressOp
        [] PROFILE = "blocks" -> BlockOp
        [] PROFILE = "frames" -> IF Chance(2, 3) THEN GeoOp ELSE RotOp

Begin == hist = <<>> /\ hist' = <<[op |-> "session", n |-> 0]>>
Extend == hist # <<>> /\ Len(hist) < DEPTH /\ hist' = Append(hist, Op)
Write ==
  /\ Len(hist) >= DEPTH
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ ndJsonSerialize(IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script", hist)
  /\ hist' = <<>>
Init == hist = <<>> /\ TLCSet(7, 0)
Next == Begin \/ Extend \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
