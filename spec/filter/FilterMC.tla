------------------------------ MODULE FilterMC ------------------------------
(***************************************************************************)
(* Every behaviour of FilterCore with few sensors and a short clock.  The  *)
(* invariants are the listed properties of the discrete filter, stated     *)
(* without reference to how FilterCore computes them.                      *)
(***************************************************************************)
EXTENDS FilterCore

CONSTANTS STEPS, TMAX, LEN, PERS, ADT, POLS, KINDS

VARIABLES s, n, frames, since, op
vars == <<s, n, frames, since, op>>
(* n: operations so far;  frames: camera frames made;  since: frames since *)
(* the last time/error clone;  op: the last operation                      *)

Init ==
  /\ \E p \in POLS : s = SetLen(NewFilter(p, ADT), LEN)
  /\ n = 0 /\ frames = 0 /\ since = 1 /\ op = "new"

Do(o, t, f) ==
  /\ s' = t /\ op' = o /\ n' = n + 1
  /\ frames' = frames + f
  /\ since' = IF \E c \in {t.augs[j] : j \in 1..Len(t.augs)} : c.key = 0 /\ c.n > s.serial
              THEN 0 ELSE since + f

Next ==
  /\ n < STEPS
  /\ \/ /\ "reg" \in KINDS
        /\ \E id \in 1..2, e, i \in BOOLEAN :
             \/ Do("reg", RegImu(s, id, e, i), 0)
             \/ i /\ Do("reg", RegGps(s, id, e), 0)
             \/ i /\ Do("reg", RegFid(s, id, e), 0)
     \/ \E id \in 1..2, per \in PERS : Do("reg", RegCam(s, id, id = 2, per), 0)
     \/ \E t \in 0..TMAX, far \in BOOLEAN, w \in s.wins :
          (s.pol = "ERROR" \/ ~far) /\ Do("predict", Predict(s, t, w, far), 0)
     \/ \E c \in Ids(s.cams) : Do("frame", Frame(s, c, frames + 1), 1)
Spec == Init /\ [][Next]_vars

(* ---- C01 ---- *)
Range(t, lab) ==
  LET B == Blocks(t)
      k == CHOOSE k \in 1..Len(B) : B[k].lab = lab
      a == Start(t, lab)
  IN a..(a + B[k].sz - 1)
Partition ==
  /\ UNION {Range(s, l) : l \in Labels(s)} = 0..(StateSize(s) - 1)
  /\ \A l, m \in Labels(s) : l # m => Range(s, l) \cap Range(s, m) = {}
  /\ Cardinality(Labels(s)) = Len(Blocks(s))
  /\ Range(s, "body") = 0..17
Owners ==   \* exactly the calibrated components and the clones own a range
  Labels(s) = {"body"}
    \cup {"ie" \o ToString(m.id) : m \in {x \in {s.imus[j] : j \in 1..Len(s.imus)} : x.ext}}
    \cup {"ii" \o ToString(m.id) : m \in {x \in {s.imus[j] : j \in 1..Len(s.imus)} : x.int}}
    \cup {"g" \o ToString(m.id) : m \in {x \in {s.gpss[j] : j \in 1..Len(s.gpss)} : x.ext}}
    \cup {"c" \o ToString(m.id) : m \in {x \in {s.cams[j] : j \in 1..Len(s.cams)} : x.ext}}
    \cup {"f" \o ToString(m.id) : m \in {x \in {s.fids[j] : j \in 1..Len(s.fids)} : x.ext}}
    \cup {"a" \o ToString(s.augs[j].n) : j \in 1..Len(s.augs)}
Groups ==
  /\ ImuStart(s) <= GpsStart(s) /\ GpsStart(s) <= CamStart(s)
  /\ CamStart(s) <= FidStart(s) /\ FidStart(s) <= AugStart(s) /\ AugStart(s) <= StateSize(s)
  /\ AugStart(s) + 6 * Len(s.augs) = StateSize(s)
  /\ \A q \in {s.imus, s.gpss, s.cams, s.fids} : \A a, b \in 1..Len(q) : a < b => q[a].id < q[b].id

(* ---- C02: survivors keep their order and every scalar of theirs ---- *)
Survive ==
  LET B == Blocks(s)  D == Blocks(s')
      pos == PosOf(D, B)
      live == {k \in 1..Len(pos) : pos[k] # 0}
      common == Labels(s) \cap Labels(s')
  IN /\ Len(pos) = StateSize(s')
     /\ \A a, b \in live : (a < b) <=> (pos[a] < pos[b])
     /\ {pos[k] - 1 : k \in live} = UNION {Range(s, l) : l \in common}
     /\ {k - 1 : k \in live} = UNION {Range(s', l) : l \in common}
Cloned ==
  LET new == {CloneLab(s'.augs[k]) : k \in 1..Len(s'.augs)} \ {CloneLab(s.augs[k]) : k \in 1..Len(s.augs)}
      pos == PosOfClone(Blocks(s'), Blocks(s), new)
  IN \A l \in new : \A k \in 0..5 :
       pos[Start(s', l) + k + 1] = <<1, 2, 3, 10, 11, 12>>[k + 1]
C02 == [][Survive /\ Cloned]_vars

(* ---- C03 ---- *)
Twice ==
  op' = "reg" =>
    LET ids(t) == <<Ids(t.imus), Ids(t.gpss), Ids(t.cams), Ids(t.fids)>> IN
    ids(s') = ids(s) => s' = s
C03 == [][Twice]_vars

(* ---- C04 ---- *)
C04 == [][s'.cur >= s.cur /\ (op' # "predict" => s'.cur = s.cur)]_vars

(* ---- C06 ---- *)
Made == {k \in 1..Len(s'.augs) : s'.augs[k].n > s.serial}
Making ==
  /\ Cardinality(Made) <= 1
  /\ s'.serial = s.serial + Cardinality(Made)
  /\ s.pol = "NONE" => Made = {}
  /\ (s.pol = "ALL" /\ op' = "frame") => Cardinality(Made) = 1
  /\ (s.pol \in {"ALL", "PRIMARY"} /\ op' # "frame") => Made = {}
  /\ (s.pol \in {"TIME", "ERROR"} /\ op' # "predict") => Made = {}
  /\ \A k \in Made :
       /\ s'.augs[k].t = s'.cur
       /\ s.pol \in {"ALL", "PRIMARY"} => s'.augs[k].fid = frames' /\ s'.augs[k].key \in Ids(s.cams)
       /\ s.pol = "PRIMARY" => s'.augs[k].key = s.prim
       /\ s.pol \in {"TIME", "ERROR"} => since > 0 /\ s'.augs[k].key = 0
  /\ (s.pol = "TIME" /\ Own(s) # {} /\ Made # {}) => s'.cur - LastOwn(s).t > s.adt
  /\ (s.pol = "TIME" /\ op' = "predict" /\ since > 0 /\ s'.cur > s.cur /\ Own(s) # {}) =>
       (Made # {} <=> s'.cur - LastOwn(s).t > s.adt)
  /\ (s.pol = "ERROR" /\ Own(s) # {} /\ Made # {}) => s'.cur - LastOwn(s).t > Min2(s.minper, SetMin(s.wins))
C06 == [][Making]_vars

(* ---- C07 ---- *)
Bounded ==
  s.pol \in {"ALL", "PRIMARY"} => \A c \in Ids(s.cams) : Cardinality(KeyIdx(s, c)) <= LEN
Ordered ==
  \A a, b \in 1..Len(s.augs) : a < b =>
    \/ s.augs[a].key < s.augs[b].key
    \/ s.augs[a].key = s.augs[b].key /\ s.augs[a].t <= s.augs[b].t /\ s.augs[a].n < s.augs[b].n
Gone == {s.augs[k] : k \in 1..Len(s.augs)} \ {s'.augs[k] : k \in 1..Len(s'.augs)}
Dropping ==
  /\ s.pol \in {"ALL", "PRIMARY"} =>
       \A c \in Gone : /\ op' = "frame" /\ Cardinality(Gone) = 1
                       /\ Cardinality(KeyIdx(s, c.key)) = LEN
                       /\ \A k \in KeyIdx(s, c.key) : c.n <= s.augs[k].n
  /\ s.pol \in {"TIME", "ERROR"} =>
       /\ Own(s) # {} => LastOwn(s) \notin Gone
       /\ \A c \in Gone : \E d \in {s.augs[k] : k \in Own(s)} :
            d.n > c.n /\ s'.cur - d.t > SetMin(s.wins)
       /\ (op' = "predict" /\ s'.cur >= s.cur /\ s' # s) =>
            Cardinality({k \in Own(s') : s'.augs[k].n <= s.serial
                          /\ s'.cur - s'.augs[k].t > SetMax(s.wins)}) <= 1
C07 == [][Dropping]_vars
=============================================================================
