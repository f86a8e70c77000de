----------------------------- MODULE FilterCore -----------------------------
(***************************************************************************)
(* The discrete part of the calibration filter: which sensors, boards and  *)
(* pose clones it holds, how they share the error-state vector, its clock, *)
(* and the augmentation policy.  Every operation of the filter is an       *)
(* operator from filter record to filter record; FilterMC explores them    *)
(* exhaustively and generates scripts, FilterTrace replays the real        *)
(* filter's traces through the same operators.                             *)
(*                                                                         *)
(* Times are integers (ticks of 1/1024 s, exact in floating point).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

BodySize == 18
ExtSize == 6       \* IMU, camera and board pose
IntSize == 6       \* IMU biases
GpsSize == 3
CloneSize == 6

Policies == {"NONE", "ALL", "PRIMARY", "TIME", "ERROR"}

NewFilter(pol, adt) ==
  [pol |-> pol, adt |-> adt, len |-> 20,
   imus |-> <<>>, gpss |-> <<>>, cams |-> <<>>, fids |-> <<>>, augs |-> <<>>,
   prim |-> 0,           \* first registered camera
   maxper |-> 0,         \* longest camera period
   minper |-> 1024,      \* shortest camera period (one second without cameras)
   wins |-> {0},         \* track window of the time/error policies
   cur |-> 0, ref |-> 0, tinit |-> FALSE,
   grav |-> FALSE, zero |-> TRUE,
   seen |-> TRUE,        \* a camera frame since the last time/error clone
   serial |-> 0]         \* clones made so far: a clone's identity

(* ---- ordered registration ---- *)
Ids(q) == {q[k].id : k \in 1..Len(q)}
RECURSIVE InsertSorted(_, _)
InsertSorted(q, x) ==
  IF q = <<>> THEN <<x>>
  ELSE IF x.id < Head(q).id THEN <<x>> \o q
  ELSE <<Head(q)>> \o InsertSorted(Tail(q), x)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RegImu(s, id, e, n) ==
  IF id \in Ids(s.imus) THEN s
  ELSE [s EXCEPT !.imus = InsertSorted(@, [id |-> id, ext |-> e, int |-> n])]
RegGps(s, id, e) ==
  IF id \in Ids(s.gpss) THEN s
  ELSE [s EXCEPT !.gpss = InsertSorted(@, [id |-> id, ext |-> e])]
RegFid(s, id, e) ==
  IF id \in Ids(s.fids) THEN s
  ELSE [s EXCEPT !.fids = InsertSorted(@, [id |-> id, ext |-> e])]
(* The window is the longest camera period times the maximum track length; *)
(* one period more is also accepted.                                       *)
Window(s) == {s.maxper * s.len, s.maxper * (s.len + 1)}
RegCam(s, id, e, per) ==
  IF id \in Ids(s.cams) THEN s
  ELSE LET t == [s EXCEPT !.cams = InsertSorted(@, [id |-> id, ext |-> e, per |-> per]),
                          !.prim = IF @ = 0 THEN id ELSE @,
                          !.maxper = Max2(@, per),
                          !.minper = Min2(@, per)]
       IN [t EXCEPT !.wins = Window(t)]
SetLen(s, n) ==
  LET t == [s EXCEPT !.len = n] IN [t EXCEPT !.wins = Window(t)]

(* ---- the error-state vector ---- *)
Blk(lab, sz) == IF sz = 0 THEN <<>> ELSE <<[lab |-> lab, sz |-> sz]>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
ImuBlocks(s) ==
  Cat([k \in 1..Len(s.imus) |->
    Blk("ie" \o ToString(s.imus[k].id), IF s.imus[k].ext THEN ExtSize ELSE 0) \o
    Blk("ii" \o ToString(s.imus[k].id), IF s.imus[k].int THEN IntSize ELSE 0)])
GpsBlocks(s) ==
  Cat([k \in 1..Len(s.gpss) |->
    Blk("g" \o ToString(s.gpss[k].id), IF s.gpss[k].ext THEN GpsSize ELSE 0)])
CamBlocks(s) ==
  Cat([k \in 1..Len(s.cams) |->
    Blk("c" \o ToString(s.cams[k].id), IF s.cams[k].ext THEN ExtSize ELSE 0)])
FidBlocks(s) ==
  Cat([k \in 1..Len(s.fids) |->
    Blk("f" \o ToString(s.fids[k].id), IF s.fids[k].ext THEN ExtSize ELSE 0)])
CloneLab(c) == "a" \o ToString(c.n)
AugBlocks(s) == [k \in 1..Len(s.augs) |-> [lab |-> CloneLab(s.augs[k]), sz |-> CloneSize]]
Blocks(s) ==
  <<[lab |-> "body", sz |-> BodySize]>> \o ImuBlocks(s) \o GpsBlocks(s) \o CamBlocks(s)
  \o FidBlocks(s) \o AugBlocks(s)
RECURSIVE SizeOf(_)
SizeOf(q) == IF q = <<>> THEN 0 ELSE Head(q).sz + SizeOf(Tail(q))
StateSize(s) == SizeOf(Blocks(s))
Labels(s) == {Blocks(s)[k].lab : k \in 1..Len(Blocks(s))}
(* 0-based start of a label's range, as the code counts; -1 if it has none *)
RECURSIVE StartIn(_, _, _)
StartIn(q, lab, at) ==
  IF q = <<>> THEN -1
  ELSE IF Head(q).lab = lab THEN at
  ELSE StartIn(Tail(q), lab, at + Head(q).sz)
Start(s, lab) == StartIn(Blocks(s), lab, 0)
ImuStart(s) == BodySize
GpsStart(s) == ImuStart(s) + SizeOf(ImuBlocks(s))
CamStart(s) == GpsStart(s) + SizeOf(GpsBlocks(s))
FidStart(s) == CamStart(s) + SizeOf(CamBlocks(s))
AugStart(s) == FidStart(s) + SizeOf(FidBlocks(s))

(* For each scalar of layout q, the 1-based position of the same scalar in *)
(* layout p, 0 where p does not hold that label.                           *)
RECURSIVE PosOf(_, _)
PosOf(q, p) ==
  IF q = <<>> THEN <<>>
  ELSE LET st == StartIn(p, Head(q).lab, 0)
       IN [k \in 1..Head(q).sz |-> IF st < 0 THEN 0 ELSE st + k] \o PosOf(Tail(q), p)
(* As PosOf, with the scalars of clones not in p taken from the body pose  *)
(* (position, then orientation), which is what a new clone copies.         *)
RECURSIVE PosOfClone(_, _, _)
PosOfClone(q, p, new) ==
  IF q = <<>> THEN <<>>
  ELSE LET st == StartIn(p, Head(q).lab, 0)
       IN (IF Head(q).lab \in new THEN <<1, 2, 3, 10, 11, 12>>
           ELSE [k \in 1..Head(q).sz |-> IF st < 0 THEN 0 ELSE st + k])
          \o PosOfClone(Tail(q), p, new)

(* ---- clock ---- *)
(* Local time of a measurement time *)
LocalTime(s, t) == IF s.tinit THEN t - s.ref ELSE 0
ClockStart(s, t) == IF s.tinit THEN s ELSE [s EXCEPT !.tinit = TRUE, !.ref = t, !.cur = 0]
InitClock(s, t) == [s EXCEPT !.tinit = TRUE, !.cur = t]
Stale(s, t) == t < s.cur

(* ---- clones ---- *)
Clone(s, key, fid) == [key |-> key, fid |-> fid, t |-> s.cur, n |-> s.serial + 1]
KeyIdx(s, key) == {k \in 1..Len(s.augs) : s.augs[k].key = key}
RECURSIVE InsertClone(_, _)
InsertClone(q, c) ==   \* after the last clone of the same or a smaller key
  IF q = <<>> THEN <<c>>
  ELSE IF c.key < Head(q).key THEN <<c>> \o q
  ELSE <<Head(q)>> \o InsertClone(Tail(q), c)
AddClone(s, key, fid) ==
  [s EXCEPT !.augs = InsertClone(@, Clone(s, key, fid)), !.serial = @ + 1]
DropAt(q, ks) == LET keep == {k \in 1..Len(q) : k \notin ks}
                     F[k \in 0..Len(q)] ==
                       IF k = 0 THEN <<>> ELSE IF k \in keep THEN Append(F[k-1], q[k]) ELSE F[k-1]
                 IN F[Len(q)]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

ClonesFrame(s, cam) == s.pol = "ALL" \/ (s.pol = "PRIMARY" /\ cam = s.prim)
(* A camera frame arrived *)
Frame(s, cam, fid) ==
  LET t == [s EXCEPT !.seen = TRUE] IN
  IF ~ClonesFrame(s, cam) THEN t
  ELSE LET old == KeyIdx(t, cam)
           u == IF Cardinality(old) >= t.len
                THEN [t EXCEPT !.augs = DropAt(@, {SetMin(old)})] ELSE t
       IN AddClone(u, cam, fid)

SelfPol(s) == s.pol \in {"TIME", "ERROR"}
Own(s) == KeyIdx(s, 0)
LastOwn(s) == s.augs[SetMax(Own(s))]
(* Clones whose successor is older than the window w *)
Expired(s, w) ==
  {k \in Own(s) : k + 1 \in Own(s) /\ s.cur - s.augs[k + 1].t > w}
(* Is a clone due?  far: the constant-velocity back-prediction is off by    *)
(* more than a threshold (error policy).                                    *)
Due(s, w, far) ==
  CASE Own(s) = {} -> TRUE
    [] Own(s) # {} /\ s.pol = "TIME" -> s.cur - LastOwn(s).t > s.adt
    [] Own(s) # {} /\ s.pol = "ERROR" ->
         LET age == s.cur - LastOwn(s).t
         IN age > w \/ (age > s.minper /\ far)
SelfAugment(s, w, far) ==
  IF ~SelfPol(s) THEN s
  ELSE LET due == Due(s, w, far) /\ s.seen
           t == [s EXCEPT !.augs = DropAt(@, Expired(s, w))]
       IN IF due THEN [AddClone(t, 0, 0) EXCEPT !.seen = FALSE] ELSE t

(* Prediction: the clock moves, then clones are kept up *)
Predict(s, t, w, far) ==
  IF Stale(s, t) THEN s ELSE SelfAugment([s EXCEPT !.cur = t], w, far)
=============================================================================
