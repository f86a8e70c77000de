---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* What every key of a configuration means: the part of the simulation it  *)
(* describes is made with its value, or with the default when it is left   *)
(* out.  e.yaml is the configuration (numbers, flags and lists as vectors  *)
(* of reals), e.made what the program's parts were made with, in order.    *)
(***************************************************************************)
EXTENDS Geo3, FiniteSets, Json, IOUtils, TLC
CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, bad
vars == <<i, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}

Get(node, key, default) == IF key \in DOMAIN node THEN node[key] ELSE default
Sub(node, key) == Get(node, key, <<>>)
NoTurn == R1 \o R0 \o R0 \o R0
Quats == {"ang_b_to_l", "ang_i_to_b", "ang_c_to_b", "ang_f_to_l"}
Eq(a, b) == VLen(a) = VLen(b) /\ VNear(a, b, R0, RE(1, -12))
Unit(q) == VScale(RDiv(R1, VNorm(q)), q)
(* rec, of a part, holds the values node gives to keys: a set of <<key, default>> *)
Takes(rec, node, keys) == \A k \in keys :
  LET v == Get(node, k[1], k[2]) IN Eq(rec[k[1]], IF k[1] \in Quats THEN Unit(v) ELSE v)
Must(keys) == {<<k, <<>>>> : k \in keys}
Zero(keys) == {<<k, Zero3>> : k \in keys}
Num0(keys) == {<<k, R0>> : k \in keys}
Small(keys) == {<<k, RE(1, -9)>> : k \in keys}

EkfKeys == Num0({"data_log_rate", "ang_l_to_e", "gps_init_type", "use_first_estimate_jacobian"})
  \cup {<<k, R1>> : k \in {"augmenting_delta_time", "gps_init_baseline_dist", "gps_init_pos_thresh",
        "gps_init_ang_thresh", "motion_detection_chi_squared", "use_root_covariance"}}
  \cup {<<"augmenting_pos_error", RQ(1, 10)>>, <<"augmenting_ang_error", RQ(1, 10)>>,
        <<"imu_noise_scale_factor", RI(100)>>, <<"pos_b_in_l", Zero3>>, <<"pos_e_in_g", Zero3>>, <<"ang_b_to_l", NoTurn>>}
Three(x) == x \o x \o x
Noise(y) == LET n == Sub(y, "process_noise") v(k) == Three(Get(n, k, RQ(1, 100)))
            IN v("pos") \o v("vel") \o v("acc") \o v("ang_pos") \o v("ang_vel") \o v("ang_acc")
SensorKeys == {<<"rate", R1>>, <<"data_log_rate", R0>>}
SimKeys == Num0({"no_errors", "time_error"})
ImuKeys == SensorKeys \cup Num0({"is_extrinsic", "is_intrinsic"}) \cup Must({"variance"})
  \cup Zero({"pos_i_in_b", "acc_bias", "omg_bias"}) \cup {<<"ang_i_to_b", NoTurn>>}
  \cup Small({"pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability"})
ImuSim == SimKeys \cup Zero({"acc_error", "omg_error", "pos_error", "ang_error", "acc_bias_error", "omg_bias_error"})
CamKeys == SensorKeys \cup Num0({"is_extrinsic"}) \cup Must({"variance"}) \cup Zero({"pos_c_in_b"})
  \cup {<<"ang_c_to_b", NoTurn>>} \cup Small({"pos_stability", "ang_stability"})
CamSim == SimKeys \cup Zero({"pos_error", "ang_error"})
LensKeys == Num0({"k_1", "k_2", "p_1", "p_2"})
  \cup {<<"f_x", RQ(1, 100)>>, <<"f_y", RQ(1, 100)>>, <<"width", RI(640)>>, <<"height", RI(480)>>, <<"pixel_size", RE(5, -6)>>}
GpsKeys == SensorKeys \cup Num0({"is_extrinsic", "pos_stability"}) \cup Must({"variance"}) \cup Zero({"pos_a_in_b"})
GpsSim == SimKeys \cup Zero({"lla_error", "pos_a_in_b_error", "pos_e_in_g_error"}) \cup Small({"ang_l_to_e_error"})
TrkKeys == {<<"pixel_error", R1>>, <<"min_track_length", R2>>, <<"max_track_length", RI(20)>>, <<"min_feat_dist", R1>>,
            <<"down_sample", R0>>, <<"down_sample_height", RI(480)>>, <<"down_sample_width", RI(640)>>}
TrkSim == {<<"feature_count", RI(100)>>, <<"room_size", RI(10)>>}
FidKeys == Must({"variance", "square_length", "marker_length", "id", "squares_x", "squares_y"}) \cup Zero({"pos_f_in_l"}) \cup {<<"ang_f_to_l", NoTurn>>}
  \cup Num0({"is_extrinsic", "fiducial_type"}) \cup {<<"min_track_length", R2>>, <<"max_track_length", RI(20)>>}
FidSim == Zero({"pos_error", "ang_error", "t_vec_error", "r_vec_error"})
TruthKeys(kind) == {<<"stationary_time", RQ(1, 10)>>} \cup Must({"max_time"}) \cup
  (IF kind = "cyclic" THEN Zero({"pos_frequency", "ang_frequency", "pos_offset", "ang_offset"})
                           \cup {<<"pos_amplitude", R1>>, <<"ang_amplitude", RQ(1, 10)>>}
   ELSE Must({"positions", "angles", "pos_errors", "ang_errors"} \cup (IF kind = "smoother" THEN {"times"} ELSE {})))

(* rows of the trace are checked only for parts that could be seen in this build *)
Of(e, k) == LET is(r) == r.kind = k IN SelectSeq(e.made, is)
See(e) == LET c == Of(e, "can") IN IF c = <<>> THEN {} ELSE {c[1].see[k] : k \in 1..Len(c[1].see)}
RECURSIVE Longest(_, _, _)
Longest(group, list, k) == IF k = 0 THEN 0
  ELSE LET n == RFloor(Get(group[list[k]], "max_track_length", RI(20))) m == Longest(group, list, k - 1) IN IF n > m THEN n ELSE m
(* cameras that have a tracker (board), in order *)
With(y, key) == LET has(c) == key \in DOMAIN y.camera[c] IN SelectSeq(y.camera_list, has)
IdOf(e, c) == LET r == Of(e, "cam") J == {k \in 1..Len(r) : r[k].name = c} IN IF J = {} THEN -1 ELSE r[CHOOSE k \in J : TRUE].id
Attached(e, rec, y, c) ==
  LET n == y.camera[c]
  IN /\ ("cam" \notin See(e) \/ rec.camera_id = IdOf(e, c))
     /\ Eq(rec.is_cam_extrinsic, Get(n, "is_extrinsic", R0)) /\ Eq(rec.data_log_rate, Get(n, "data_log_rate", R0))
     /\ Takes(rec.lens, Sub(n, "intrinsics"), LensKeys)
(* without errors when either the tracker's or the camera's simulation is *)
Errors(rec, own, cam) ==
  LET a == Get(Sub(own, "sim_params"), "no_errors", R0) b == Get(Sub(cam, "sim_params"), "no_errors", R0)
  IN Eq(a, b) => Eq(rec.no_errors, a)
ReadChecks(e) ==
  LET y == e.yaml
      s == y.sim_params
      kind == Get(s, "truth_type", "cyclic")
      seen(k, name, ok) == IF k \in See(e) THEN Chk("C31", name, ok) ELSE {}
      sensors(k, list, node, keys, sim) ==
        LET r == Of(e, k)
        IN seen(k, k \o ": one for each in the list, in order", Len(r) = Len(y[list]) /\ \A n \in 1..Len(r) : n <= Len(y[list]) => r[n].name = y[list][n])
           \cup (IF Len(r) # Len(y[list]) THEN {} ELSE
                 seen(k, k \o ": its own values", \A n \in 1..Len(r) :
                   LET own == y[node][y[list][n]] IN Takes(r[n], own, keys) /\ r[n].topic = own.topic)
                 \cup seen(k, k \o ": its own simulation", \A n \in 1..Len(r) : Takes(r[n], Sub(y[node][y[list][n]], "sim_params"), sim)))
      ekf == Of(e, "ekf")
      cam == Of(e, "cam")
      trk == Of(e, "trk")
      fid == Of(e, "fid")
      wt == With(y, "tracker")
      wf == With(y, "fiducial")
      truth == Of(e, "truth")
      len == Of(e, "length")
  IN Chk("C31", "the program ends normally", e.rc = 0)
     \cup Chk("C31", "ids in order", See(e) \cap {"imu", "cam", "gps"} # {"imu", "cam", "gps"} \/
          LET all == Of(e, "imu") \o cam \o Of(e, "gps") IN \A k \in 1..Len(all) : all[k].id = k)
     \cup seen("debug", "debug level", LET d == Of(e, "debug") IN d # <<>> /\ Takes(d[1], y, Num0({"debug_log_level"})))
     \cup seen("ekf", "filter: one", Len(ekf) = 1)
     \cup (IF ekf = <<>> THEN {} ELSE
           seen("ekf", "filter: its values", Takes(ekf[1], y, EkfKeys))
           \cup seen("ekf", "filter: process noise", Eq(ekf[1].process_noise, Noise(y)))
           \cup seen("ekf", "filter: when to clone", Eq(ekf[1].augmenting_type,
                   IF y.tracker_list = <<>> THEN R0 ELSE Get(y, "augmenting_type", R1))))
     \cup seen("length", "longest track", len # <<>> /\
            LET n == len[Len(len)].n
                t == Longest(y.tracker, y.tracker_list, Len(y.tracker_list))
                f == Longest(y.fiducial, y.fiducial_list, Len(y.fiducial_list))
            IN n = IF t > f THEN t ELSE f)
     \cup seen("seed", "seed", LET q == Of(e, "seed") IN q # <<>> /\ q[1].n = RFloor(Get(s, "seed", R1)))
     \cup seen("begin", "start", LET b == Of(e, "begin") IN
            /\ Len(b) = 1 /\ Eq(b[1].t, R0) /\ Eq(b[1].v, Zero3)
            /\ (DOMAIN s \cap {"pos_b_in_l_error", "ang_b_to_l_error"} = {} =>
                  Eq(b[1].p, Get(y, "pos_b_in_l", Zero3)) /\ QNear(b[1].q, Unit(Get(y, "ang_b_to_l", NoTurn)), RE(1, -12))))
     \cup seen("place", "reference", "pos_e_in_g_error" \in DOMAIN s \/
            LET q == Of(e, "place") IN Len(q) = 1 /\ Eq(q[1].p, Get(y, "pos_e_in_g", Zero3)))
     \cup seen("heading", "heading", "ang_l_to_e_error" \in DOMAIN s \/
            LET q == Of(e, "heading") IN Len(q) = 1 /\ Eq(q[1].a, Get(y, "ang_l_to_e", R0)))
     \cup seen("truth", "trajectory", Len(truth) = 1 /\ truth[1].truth_type = kind /\ Takes(truth[1], s, TruthKeys(kind)))
     \cup sensors("imu", "imu_list", "imu", ImuKeys, ImuSim)
     \cup sensors("cam", "camera_list", "camera", CamKeys, CamSim)
     \cup sensors("gps", "gps_list", "gps", GpsKeys, GpsSim)
     \cup seen("cam", "cam: lens", Len(cam) = Len(y.camera_list) =>
            \A n \in 1..Len(cam) : Takes(cam[n].lens, Sub(y.camera[y.camera_list[n]], "intrinsics"), LensKeys))
     \cup seen("trk", "trackers: where configured", Len(trk) = Len(wt) /\ \A n \in 1..Len(trk) : n <= Len(wt) =>
            trk[n].name = y.camera[wt[n]].tracker)
     \cup seen("fid", "boards: where configured", Len(fid) = Len(wf) /\ \A n \in 1..Len(fid) : n <= Len(wf) =>
            fid[n].name = y.camera[wf[n]].fiducial)
     \cup (IF Len(trk) # Len(wt) THEN {} ELSE seen("trk", "trackers: values", \A n \in 1..Len(trk) :
            LET own == y.tracker[y.camera[wt[n]].tracker] IN
            Attached(e, trk[n], y, wt[n]) /\ Takes(trk[n], own, TrkKeys) /\ Takes(trk[n], Sub(own, "sim_params"), TrkSim)
            /\ Errors(trk[n], own, y.camera[wt[n]])))
     \cup (IF Len(fid) # Len(wf) THEN {} ELSE seen("fid", "boards: values", \A n \in 1..Len(fid) :
            LET own == y.fiducial[y.camera[wf[n]].fiducial] IN
            Attached(e, fid[n], y, wf[n]) /\ Takes(fid[n], own, FidKeys) /\ Takes(fid[n], Sub(own, "sim_params"), FidSim)
            /\ Errors(fid[n], own, y.camera[wf[n]])))

(***************************************************************************)
(* The ROS node: the same meaning of its parameters, and what becomes of   *)
(* the messages on its topics.  e.played is what was played, e.got what    *)
(* reached sensors, what was published and what was said; n = message.     *)
(***************************************************************************)
NodeEkf == {k \in EkfKeys : k[1] \notin {"augmenting_delta_time", "augmenting_pos_error", "augmenting_ang_error"}}
  \cup Num0({"augmenting_delta_time", "augmenting_pos_error", "augmenting_ang_error"})
Ones(n) == [k \in 1..2 * n |-> IF k % 2 = 1 THEN R1[1] ELSE R1[2]]
But(keys, name, v) == {k \in keys : k[1] # name} \cup {<<name, v>>}
NodeImu == But(ImuKeys, "variance", Ones(12))
NodeCam == But(CamKeys, "variance", Ones(6))
NodeGps == But(But(GpsKeys, "variance", Ones(3)), "pos_stability", RE(1, -9))
NodeTrk == Num0({"feature_detector", "descriptor_extractor", "descriptor_matcher"})
  \cup {<<"detector_threshold", RI(20)>>, <<"pixel_error", R1>>, <<"min_feature_distance", R1>>, <<"min_track_length", R2>>,
        <<"max_track_length", RI(20)>>, <<"down_sample_height", RI(480)>>, <<"down_sample_width", RI(640)>>}
NodeFid == But(FidKeys, "variance", Zero3 \o Zero3)
LevelName == <<"FATAL", "ERROR", "WARN ", "INFO ", "DEBUG">>
Label == <<"FATAL", "ERROR", "WARN", "INFO", "DEBUG">>
Said(m) ==
  LET now == IF m.how = 0 THEN m.cfg ELSE m.set
  IN (IF m.how # 0 /\ (m.cfg >= 3 \/ m.set >= 3) THEN "[INFO]: Log level set to: " \o LevelName[m.set + 1] \o "\n" ELSE "")
     \o (IF m.lv <= now THEN "[" \o Label[m.lv + 1] \o "]: " \o m.txt \o "\n" ELSE "")
Same(a, b) == VLen(a) = VLen(b) /\ VNear(a, b, R0, RE(1, -12))
Stamp(m) == RAdd(RI(m.sec), RMul(RI(m.nsec), RE(1, -9)))
NodeChecks(e) ==
  LET y == e.yaml
      chk(name, ok) == Chk("C33", name, ok)
      seen(k, name, ok) == IF k \in See(e) THEN Chk("C33", name, ok) ELSE {}
      home(r) == r.dir /\ r.ours
      sensors(k, list, node, keys) ==
        LET r == Of(e, k)
        IN seen(k, k \o ": one for each in the list, in order", Len(r) = Len(y[list]) /\ \A n \in 1..Len(r) : n <= Len(y[list]) => r[n].name = y[list][n])
           \cup (IF Len(r) # Len(y[list]) THEN {} ELSE
                 seen(k, k \o ": its own values", \A n \in 1..Len(r) :
                   LET own == y[node][y[list][n]] IN Takes(r[n], own, keys) /\ r[n].topic = own.topic /\ home(r[n])))
      ekf == Of(e, "ekf")
      cam == Of(e, "cam")
      trk == Of(e, "trk")
      fid == Of(e, "fid")
      wt == With(y, "tracker")
      wf == With(y, "fiducial")
      len == Of(e, "length")
      all == Of(e, "imu") \o cam \o Of(e, "gps")
      whole == {"imu", "cam", "gps", "got"} \subseteq See(e)
      at(n, kind, what) == LET is(r) == r.n = n /\ r.kind = kind /\ (what = "" \/ r.what = what) IN SelectSeq(e.got, is)
      (* sensors of a kind that listen to a topic, of those made *)
      ears(kind, topic) == {k \in 1..Len(all) : all[k].kind = kind /\ all[k].topic = topic}
      content(m, r) == CASE m.msg = "imu" -> Same(r.acc, m.acc) /\ Same(r.omg, m.omg) /\ Same(r.acc_cov, m.acc_cov) /\ Same(r.omg_cov, m.omg_cov)
                         [] m.msg = "gps" -> Same(r.lla, m.lla) /\ Same(r.cov, m.cov)
                         [] OTHER -> r.w = m.w /\ r.h = m.h /\ LET s == at(r.n, "sent", "") IN Len(s) = 1 /\ r.sum = s[1].sum
      level == RFloor(Get(y, "debug_log_level", R0))
      on(n) == LET m == e.played[n]
               IN IF m.msg = "say" THEN chk("says", LET s == at(n, "said", "") IN Len(s) = 1 /\ s[1].text = Said(m))
                  ELSE IF m.msg = "tick" THEN
                    LET isb(r) == r.topic = "~/BodyState"
                        s == SelectSeq(at(n, "pub", "numbers"), isb)
                    IN chk("publishes the state once a tick", Len(s) = 1)
                       \cup (IF Len(s) # 1 THEN {} ELSE chk("publishes the filter's state",
                             Same(s[1].data, s[1].p \o s[1].v \o s[1].a \o QToRotVec(s[1].q) \o s[1].w \o s[1].wa)
                             \/ VNear(s[1].data, s[1].p \o s[1].v \o s[1].a \o QToRotVec(s[1].q) \o s[1].w \o s[1].wa, RE(1, -9), RE(1, -9))))
                  ELSE IF ~whole THEN {}
                  ELSE LET g == at(n, "got", "") E == ears(m.msg, m.topic)
                       IN chk(m.msg \o ": reaches those that listen, once", Len(g) = Cardinality(E)
                              /\ {g[k].id : k \in 1..Len(g)} = {all[k].id : k \in E} /\ \A k \in 1..Len(g) : g[k].what = m.msg)
                          \cup chk(m.msg \o ": as from the sensor itself", \A k \in 1..Len(g) : g[k].sid = g[k].id)
                          \cup chk(m.msg \o ": at its time", \A k \in 1..Len(g) : VNear(g[k].t, Stamp(m), RE(1, -6), R0))
                          \cup chk(m.msg \o ": with its content", \A k \in 1..Len(g) : g[k].what = m.msg => content(m, g[k]))
                          \cup (IF m.msg # "cam" THEN {} ELSE
                                chk("image published again", \A k \in E : DOMAIN y.camera[all[k].name] \cap {"tracker", "fiducial"} = {} \/
                                  LET isi(r) == r.topic = "~/" \o all[k].name
                                      s == SelectSeq(at(n, "pub", "image"), isi)
                                  IN Len(s) = 1 /\ s[1].w = m.w /\ s[1].h = m.h /\ s[1].bytes = 3 * m.w * m.h))
  IN chk("the node ends normally", e.rc = 0 /\ e.ended = Len(e.played))
     \cup chk("nothing shown above its level", \A k \in 1..5 : k - 1 > level => e.shown[k] = 0)
     \cup seen("debug", "debug level", LET d == Of(e, "debug") IN d # <<>> /\ Takes(d[1], y, Num0({"debug_log_level"})))
     \cup seen("ekf", "filter: one", Len(ekf) = 1)
     \cup (IF ekf = <<>> THEN {} ELSE
           seen("ekf", "filter: its values", Takes(ekf[1], y, NodeEkf) /\ ekf[1].dir)
           \cup seen("ekf", "filter: process noise", Eq(ekf[1].process_noise, Noise(y)))
           \cup seen("ekf", "filter: when to clone", Eq(ekf[1].augmenting_type,
                   IF y.tracker_list = <<>> THEN R0 ELSE Get(y, "augmenting_type", R0))))
     \cup seen("length", "longest track",
            LET t == Longest(y.tracker, y.tracker_list, Len(y.tracker_list))
                f == Longest(y.fiducial, y.fiducial_list, Len(y.fiducial_list))
                n == IF t > f THEN t ELSE f
            IN n = 0 \/ (len # <<>> /\ len[Len(len)].n = n))
     \cup (IF ~whole THEN {} ELSE chk("sensors have ids of their own", Cardinality({all[k].id : k \in 1..Len(all)}) = Len(all)))
     \cup sensors("imu", "imu_list", "imu", NodeImu)
     \cup sensors("cam", "camera_list", "camera", NodeCam)
     \cup sensors("gps", "gps_list", "gps", NodeGps)
     \cup seen("cam", "cam: lens", Len(cam) = Len(y.camera_list) =>
            \A n \in 1..Len(cam) : Takes(cam[n].lens, Sub(y.camera[y.camera_list[n]], "intrinsics"), LensKeys))
     \cup seen("trk", "trackers: where configured", Len(trk) = Len(wt))
     \cup seen("fid", "boards: where configured", Len(fid) = Len(wf))
     \cup (IF Len(trk) # Len(wt) THEN {} ELSE seen("trk", "trackers: values", \A n \in 1..Len(trk) :
            Attached(e, trk[n], y, wt[n]) /\ home(trk[n]) /\ Takes(trk[n], y.tracker[y.camera[wt[n]].tracker], NodeTrk)))
     \cup (IF Len(fid) # Len(wf) THEN {} ELSE seen("fid", "boards: values", \A n \in 1..Len(fid) :
            Attached(e, fid[n], y, wf[n]) /\ home(fid[n]) /\ Takes(fid[n], y.fiducial[y.camera[wf[n]].fiducial], NodeFid)))
     \cup UNION {on(n) : n \in 1..(IF e.ended < Len(e.played) THEN e.ended ELSE Len(e.played))}

Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == i = 1 /\ bad = {}
Next ==
  /\ i <= N
  /\ LET e == Trace[i]
     IN IF e.op \notin {"read", "node"} THEN UNCHANGED bad
        ELSE \E f \in {IF e.op = "read" THEN ReadChecks(e) ELSE NodeChecks(e)} : Report(f) /\ bad' = bad \cup f
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
