---------------------------- MODULE VisionTrace ----------------------------
(***************************************************************************)
(* Validates what the feature tracker makes of rendered images.  Which     *)
(* features it finds is its own choice; what it hands to the filter must   *)
(* be a possible outcome of TrackCore's rules for some choice of visible   *)
(* features (C18), and those features must be points of the scene (C29).   *)
(* Frame k of the camera shows the canvas shifted by (ox, oy): a pixel's   *)
(* canvas position tells which point of the scene it shows.                *)
(* Pixel coordinates are in eighths.                                       *)
(***************************************************************************)
EXTENDS Geo3, TrackCore, FiniteSets, Json, IOUtils, TLC
CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, cfg, fr, used, cnt, lt, bad
vars == <<i, cfg, fr, used, cnt, lt, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}
Range(s) == {s[k] : k \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x

(* fr: the frames so far [fid, tk, ox, oy, common]; used: observations already delivered; *)
(* cnt: [links, wrong] - matches used so far, and those between different scene points    *)
At(q, f) == LET J == {k \in 1..Len(q) : q[k].fid = f} IN IF J = {} THEN 0 ELSE CHOOSE k \in J : TRUE
Tracks(e) == UNION {Range(e.calls[k].tracks) : k \in 1..Len(e.calls)}
NTracks(e) == Len(e.calls)
ObsOf(tr) == {<<o.f, o.x, o.y>> : o \in Range(tr.ob)}
Known(q, tr) == tr.ob # <<>> /\ \A o \in Range(tr.ob) : At(q, o.f) > 0
Lifecycle(e, q) ==
  LET all == [k \in 1..Len(e.calls) |-> e.calls[k].tracks]
      n == Len(q)
      T == Tracks(e)
      K == {tr \in T : Known(q, tr)}
  IN Chk("C18", "update asked for", \A k \in 1..Len(e.calls) :
              e.calls[k].ours /\ e.calls[k].t = e.t /\ e.calls[k].px = 25 * cfg.px /\ e.calls[k].tracks # <<>>)
     \cup Chk("C18", "one update", Len(e.calls) <= 1)
     \cup Chk("C18", "one feature per track",
              \A tr \in T : tr.ids # <<>> /\ tr.ids[1] >= 0 /\ \A x \in Range(tr.ids) : x = tr.ids[1])
     \cup Chk("C18", "each feature once", \A c \in 1..Len(all) : \A j, k \in 1..Len(all[c]) :
              j # k /\ all[c][j].ids # <<>> /\ all[c][k].ids # <<>> => all[c][j].ids[1] # all[c][k].ids[1])
     \cup Chk("C18", "frames of this camera", K = T)
     \cup Chk("C18", "observed when shown", \A tr \in K : \A o \in Range(tr.ob) : o.t = q[At(q, o.f)].tk)
     \cup Chk("C18", "frame after frame", \A tr \in K : \A k \in 2..Len(tr.ob) : At(q, tr.ob[k].f) = At(q, tr.ob[k - 1].f) + 1)
     \cup Chk("C18", "long enough", \A tr \in T : Len(tr.ob) >= cfg.min /\ Len(tr.ob) <= cfg.max)
     \cup Chk("C18", "delivered when finished", \A tr \in K :
              LET l == At(q, tr.ob[Len(tr.ob)].f) IN l = n - 1 \/ (l = n /\ Len(tr.ob) = cfg.max))
     \cup Chk("C18", "observations delivered once",
              /\ \A c \in 1..Len(all) : \A j, k \in 1..Len(all[c]) :
                    j # k => ObsOf(all[c][j]) \cap ObsOf(all[c][k]) = {}
              /\ \A tr \in T : ObsOf(tr) \cap used = {} /\ Cardinality(ObsOf(tr)) = Len(tr.ob))
     \cup Chk("C18", "no invented position", \A tr \in T : ~tr.kn)
FrameChecks(e, q) ==
  Chk("C24", "frame ids increase", fr = <<>> \/ e.fid > fr[Len(fr)].fid)
  \cup Chk("C24", "time of the image", e.tk = e.t - cfg.t0)
  \cup Lifecycle(e, q)

(* ------------------------------------------------ matching *)
(* The tracker asks the library for the two closest neighbors of each feature, both ways, and for  *)
(* a geometric test of the matches left; given their answers its tracks are determined.            *)
(* m.near: the answers, for each feature <<closest, 10^4 ratio>>; m.geo: the tests,                *)
(* <<from x, y, to x, y, accepted, 10^5 distance over the mean distance accepted>>                                                *)
Mutual(a, b, r) == {k \in 1..Len(a) : a[k][1] >= 0 /\ a[k][2] <= r /\
                      LET o == b[a[k][1] + 1] IN o[1] = k - 1 /\ o[2] <= r}
Seeing(e) == cfg.watch /\ cfg.see /\ e.match.asked \in {0, 2} /\ Len(e.match.geo) <= 1
MatchChecks(e) ==
  LET m == e.match
      a == m.near[1]  b == m.near[2]
      least == Cardinality(Mutual(a, b, 6998))  most == Cardinality(Mutual(a, b, 7002))
      n == IF m.geo = <<>> THEN 0 ELSE Len(m.geo[1])
  IN IF ~Seeing(e) THEN {}
     ELSE IF m.asked = 0 THEN Chk("C29", "matched before", n = 0)
     ELSE Chk("C29", "ambiguous or one-sided matches", n <= most)
          \cup Chk("C29", "matches used", IF m.geo = <<>> THEN least < 10 ELSE n >= least)
(* matches that passed, <<from, to>>; a match that moves more than three times the mean is dropped *)
Passed(e) == IF e.match.geo = <<>> THEN <<>> ELSE SelectSeq(e.match.geo[1], LAMBDA x : x[5] = 1)
(* this close to the limit it may go either way *)
Close(q) == \E k \in 1..Len(q) : Abs(q[k][6] - 300000) <= 10
Links(q) == SelectSeq(q, LAMBDA x : x[6] <= 300000)
(* lt: the tracks there should be. on: known; pend: TrackCore's; id: position in the last frame -> *)
(* name of the feature seen there                                                                 *)
NoLt == [on |-> TRUE, pend |-> NoTracks, id |-> NoTracks]
From(x) == <<x[1], x[2]>>
To(x) == <<x[3], x[4]>>
Moved(q, x) == LET f == q[Len(q) - 1] g == q[Len(q)] IN
               Abs(x[3] + 8 * g.ox - x[1] - 8 * f.ox) > 12 \/ Abs(x[4] + 8 * g.oy - x[2] - 8 * f.oy) > 12
Count(c, e, q) ==
  IF ~Seeing(e) \/ Len(q) < 2 THEN c
  ELSE LET L == Links(Passed(e))
       IN [links |-> c.links + Len(L), wrong |-> c.wrong + Cardinality({k \in 1..Len(L) : Moved(q, L[k])})]
(* common: features seen at the same place of the scene in this image and the last *)
SceneChecks(e, q, c) ==
  IF ~Seeing(e) \/ Len(q) < 2 THEN {}
  ELSE Chk("C29", "matches follow the scene", 4 * c.wrong <= c.links + 48)
       \cup LET f == q[Len(q) - 1] near == Abs(e.ox - f.ox) <= 24 /\ Abs(e.oy - f.oy) <= 18
            IN Chk("C29", "points are followed", ~near \/ cfg.tile > 0 \/ e.common < 24 \/ 3 * Len(Links(Passed(e))) >= e.common)
Follow(l, e, k) ==
  LET L == Links(Passed(e))
      J == 1..Len(L)
      name(j) == IF From(L[j]) \in DOMAIN l.id THEN l.id[From(L[j])] ELSE 1000 * k + j
      new == {j \in J : From(L[j]) \notin DOMAIN l.id}
      start == [x \in (DOMAIN l.pend) \cup {name(j) : j \in new} |->
                  IF x \in DOMAIN l.pend THEN l.pend[x] ELSE LET j == CHOOSE y \in new : name(y) = x IN <<<<k - 1, From(L[j])>>>>]
      seen == [x \in {name(j) : j \in J} |-> LET j == CHOOSE y \in J : name(y) = x IN <<k, To(L[j])>>]
      clear == Cardinality({From(L[j]) : j \in J}) = Len(L) /\ Cardinality({To(L[j]) : j \in J}) = Len(L)
  IN IF ~l.on \/ ~Seeing(e) \/ Close(Passed(e)) \/ ~clear THEN [on |-> FALSE, pend |-> NoTracks, id |-> NoTracks, out |-> {}]
     ELSE LET long == Longer(start, seen) IN
          [on |-> TRUE, pend |-> Remaining(long, seen, cfg.max),
           id |-> [p \in {To(L[j]) : j \in J} |-> name(CHOOSE j \in J : To(L[j]) = p)],
           out |-> {long[x] : x \in Delivered(long, seen, cfg.min, cfg.max)}]
Back(v) == IF cfg.down = 1 THEN 2 * v + 4 ELSE v
Same(q, tr, d) == /\ Len(tr.ob) = Len(d)
                  /\ \A k \in 1..Len(d) : /\ At(q, tr.ob[k].f) = d[k][1]
                                          /\ Abs(tr.ob[k].x - Back(d[k][2][1])) <= 2 /\ Abs(tr.ob[k].y - Back(d[k][2][2])) <= 2
FollowChecks(e, q, l) ==
  IF ~l.on THEN {}
  ELSE Chk("C18", "nothing withheld", \A d \in l.out : \E tr \in Tracks(e) : Same(q, tr, d))
       \cup Chk("C18", "tracks of matches", \A tr \in Tracks(e) : \E d \in l.out : Same(q, tr, d))
       \cup Chk("C29", "tracks extended by matches", \A tr \in Tracks(e) : \E d \in l.out : Same(q, tr, d))
       \cup Chk("C29", "matches extend tracks", \A d \in l.out : \E tr \in Tracks(e) : Same(q, tr, d))

(* ------------------------------------------------ selections *)
(* key points are in quarter pixels here *)
Cell(p) == <<p[1] \div 40, p[2] \div 40>>
GridChecks(e) ==
  LET inside(p) == p[1] >= 0 /\ p[2] >= 0 /\ Cell(p)[1] < e.cols \div 10 /\ Cell(p)[2] < e.rows \div 10
      out == [k \in 1..Len(e.out) |-> <<e.out[k][2], e.out[k][3]>>]
      ids == [k \in 1..Len(e.out) |-> e.out[k][1] + 1]
  IN Chk("C29", "grid: found points", \A k \in 1..Len(ids) : ids[k] \in 1..Len(e.in) /\ out[k] = <<e.in[ids[k]][1], e.in[ids[k]][2]>>
                 /\ out[k][1] >= 0 /\ out[k][1] < 4 * e.cols /\ out[k][2] >= 0 /\ out[k][2] < 4 * e.rows)
     \cup Chk("C29", "grid: in order", \A k \in 2..Len(ids) : ids[k - 1] < ids[k])
     \cup Chk("C29", "grid: one per cell", \A j, k \in 1..Len(out) : j # k => Cell(out[j]) # Cell(out[k]))
     \cup Chk("C29", "grid: no empty cell", \A k \in 1..Len(e.in) :
                 inside(e.in[k]) => \E j \in 1..Len(out) : Cell(out[j]) = Cell(e.in[k]))
RatioChecks(e) ==
  Chk("C29", "ratio", Len(e.out) = Len(e.in) /\ \A k \in 1..Len(e.in) :
        LET m == e.in[k] IN
        CASE Len(m) = 0 \/ Len(m) = 1 -> e.out[k] = <<>>
          [] 10 * m[1][3] < 7 * m[2][3] -> e.out[k] = m
          [] 10 * m[1][3] > 7 * m[2][3] -> e.out[k] = <<>>
          [] OTHER -> TRUE)
SymmChecks(e) ==
  LET best(q) == {<<q[k][1][1], q[k][1][2]>> : k \in {j \in 1..Len(q) : Len(q[j]) = 2}}
      got == {<<m[1], m[2]>> : m \in Range(e.out)}
  IN Chk("C29", "symmetry", got = {p \in best(e.f) : <<p[2], p[1]>> \in best(e.b)})
     \cup Chk("C29", "matches one to one", \A j, k \in 1..Len(e.out) :
                 j # k => e.out[j][1] # e.out[k][1] /\ e.out[j][2] # e.out[k][2])
     \cup Chk("C29", "distance", \A m \in Range(e.out) : \E k \in 1..Len(e.f) : e.f[k] # <<>> /\ e.f[k][1] = m)

(* ------------------------------------------------ boards *)
(* fr: highest frame id so far.  An image with the whole board gives one measurement of its pose.   *)
NewFrames(e) == {k \in 1..Len(e.clones) : e.clones[k][2] > fr}
Angle(p, q) == VNorm(QToRotVec(QMul(p, QInv(q))))
Mine(e, b) == {k \in 1..Len(e.calls) : e.calls[k].who = b}
LensChecks(e) ==
  Chk("C30", "lens", \A k \in 1..Len(e.lens) :
        LET g == e.given[k]
            m == RDiv(g.fx, g.pix) \o R0 \o RDiv(g.w, R2) \o R0 \o RDiv(g.fy, g.pix) \o RDiv(g.h, R2) \o R0 \o R0 \o R1
        IN VNear(e.lens[k].k, m, R0, RE(1, -12)) /\ VNear(e.lens[k].d, g.d, R0, RE(1, -12)))
BoardChecks(e) ==
  LET has == {b \in 1..Len(cfg.boards) : cfg.boards[b].cam = e.cam}
      idle == has = {} \/ e.empty = 1
  IN IF idle
     THEN Chk("C30", "nothing to see", e.calls = <<>> /\ e.pre = e.post /\ NewFrames(e) = {})
     ELSE Chk("C24", "one clone per image",
              /\ Cardinality(NewFrames(e)) = 1
              /\ \A k \in NewFrames(e) : e.clones[k][1] = cfg.sid[e.cam] /\ e.clones[k][3] = e.tk)
          \cup (IF ~cfg.watch THEN {} ELSE
          Chk("C30", "whose update", \A k \in 1..Len(e.calls) : e.calls[k].kind = "f" /\ e.calls[k].ours /\ e.calls[k].who \in has)
          \cup Chk("C30", "at most one", \A b \in has : Cardinality(Mine(e, b)) <= 1)
          \cup Chk("C30", "not there", \A b \in has : e.seen[b] = 0 => Mine(e, b) = {})
          \cup Chk("C30", "image", \A k \in 1..Len(e.calls) : e.calls[k].t = e.t /\ \A j \in NewFrames(e) : e.calls[k].fid = e.clones[j][2])
          \cup Chk("C30", "noise", \A k \in 1..Len(e.calls) : e.calls[k].who = 0 \/
                 (e.calls[k].pe = cfg.made[e.calls[k].who].pe /\ e.calls[k].ae = cfg.made[e.calls[k].who].ae))
          \cup (IF e.board \notin has \/ ~e.whole \/ e.seen[e.board] = 0 THEN {} ELSE
               Chk("C30", "seen", e.seen[e.board] < 2 \/ Mine(e, e.board) # {})
               \cup Chk("C30", "pose", e.seen[e.board] < 4 \/ \A k \in Mine(e, e.board) :
                    /\ RLe(VNorm(VSub(e.calls[k].p, e.tp)), RMul(RQ(25, 1000), VNorm(e.tp)))
                    /\ RLe(Angle(e.calls[k].q, e.tq), RQ(4, 100)))))

Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
None == [links |-> 0, wrong |-> 0]
Init == i = 1 /\ bad = {} /\ cfg = <<>> /\ fr = <<>> /\ used = {} /\ cnt = None /\ lt = NoLt
Next ==
  /\ i <= N
  /\ LET e == Trace[i]
     IN CASE e.op = "vnew" -> /\ cfg' = [t0 |-> -1] @@ e /\ fr' = <<>> /\ used' = {} /\ cnt' = None /\ lt' = NoLt
                              /\ UNCHANGED bad
          [] e.op = "vframe" ->
               \E q \in {Append(fr, [fid |-> e.fid, tk |-> e.tk, ox |-> e.ox, oy |-> e.oy, common |-> e.common])} :
               \E c \in {Count(cnt, e, q)} :
               \E l \in {Follow(lt, e, Len(q))} :
               \E f \in {IF cfg.t0 < 0 THEN {} ELSE FrameChecks(e, q) \cup SceneChecks(e, q, c)
                                                    \cup MatchChecks(e) \cup FollowChecks(e, q, l)} :
                 /\ cfg' = [cfg EXCEPT !.t0 = IF @ < 0 THEN e.t - e.tk ELSE @]
                 /\ fr' = q /\ cnt' = c /\ lt' = [on |-> l.on, pend |-> l.pend, id |-> l.id] /\ used' = used \cup UNION {ObsOf(tr) : tr \in Tracks(e)}
                 /\ Report(f) /\ bad' = bad \cup f
          [] e.op = "bnew" -> \E f \in {LensChecks(e)} : cfg' = e /\ fr' = -1 /\ Report(f) /\ bad' = bad \cup f /\ UNCHANGED <<used, cnt, lt>>
          [] e.op = "bframe" ->
               \E f \in {BoardChecks(e)} :
                 /\ fr' = IF e.clones = <<>> THEN fr ELSE LET s == {e.clones[k][2] : k \in 1..Len(e.clones)} \cup {fr} IN CHOOSE m \in s : \A x \in s : x <= m
                 /\ Report(f) /\ bad' = bad \cup f /\ UNCHANGED <<cfg, used, cnt, lt>>
          [] e.op \in {"grid", "ratio", "symm"} ->
               \E f \in {IF e.op = "grid" THEN GridChecks(e) ELSE IF e.op = "ratio" THEN RatioChecks(e) ELSE SymmChecks(e)} :
                 /\ Report(f) /\ bad' = bad \cup f /\ UNCHANGED <<cfg, fr, used, cnt, lt>>
          [] OTHER -> UNCHANGED <<cfg, fr, used, cnt, lt, bad>>
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
