------------------------------- MODULE SimGen -------------------------------
(* Worlds, queries of their trajectories, and simulated sensors in them. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist
vars == <<hist>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Seed == Pick(1..1000000)
Chance(n, d) == Pick(1..d) <= n
Kinds == IF PROFILE = "traj" THEN {"cyclic", "spline"} ELSE {"cyclic", "spline", "still"}
World == [op |-> "world", kind |-> Pick(Kinds), still |-> Pick({0, 1, 2, 4, 7}), dur |-> Pick({8, 9, 12, 20}),
          points |-> Pick({3, 4, 5, 8}), noisy |-> Pick(0..1), seed |-> Seed]
Traj == [op |-> "traj", at |-> Pick({"frac", "frac", "frac", "frac", "still", "before", "after", "end"}), k |-> Pick(0..1000), seed |-> Seed]
Sensor(o, rates) == [op |-> o, rate |-> Pick(rates), exact |-> Chance(1, 2), how |-> Pick({0, 1, 1, 2}),
                     jit |-> Pick({0, 1, 10}), seed |-> Seed]
Cam == [w |-> Pick({80, 120}), lens |-> Pick({0, 1}) = 1, trackers |-> Pick(0..2), boards |-> Pick(0..2)] @@ Sensor("scam", {1, 3, 4, 7, 10})
Msg == LET c == Pick(1..3) IN
  CASE c = 1 -> Sensor("simu", {1, 3, 8, 30, 200, 400}) [] c = 2 -> Sensor("sgps", {1, 3, 4, 10, 40, 400}) [] OTHER -> Cam
Twice == [op |-> "twice", pol |-> Pick({"NONE", "ALL", "PRIMARY", "TIME", "ERROR"}), root |-> Pick(0..1),
          dur |-> Pick({4, 8, 12}), still |-> Pick({0, 2, 4}), exact |-> Chance(1, 3), jit |-> Pick({0, 10, 50}),
          imus |-> Pick(0..2), cams |-> Pick(0..2), gpss |-> Pick(0..2), seed |-> Seed]
Program == [op |-> "program", root |-> Pick(0..1), dur |-> Pick({8, 12, 16, 24}), again |-> Pick(0..1), seed |-> Seed] @@
  (IF PROFILE = "shipped"
   THEN [kind |-> "shipped", pol |-> Pick(0..4),
         name |-> Pick({"example"} \cup {"regression/" \o n : n \in {"fiducial", "gps", "one_imu", "one_imu_cam",
           "one_imu_cam_translation", "one_imu_rotation", "one_imu_stationary", "one_imu_translation", "smoother",
           "spline", "two_imu", "two_imu_rotation", "two_imu_translation"}})]
   ELSE [kind |-> "made", pol |-> Pick(0..4), fej |-> Pick(0..1), imus |-> Pick({0, 1, 1, 1, 2}), cams |-> Pick(0..2),
         gpss |-> Pick(0..2), boards |-> Pick(0..2), feats |-> Pick(0..1), exact |-> Chance(3, 5), log |-> Pick({5, 20, 50})])
Op == IF PROFILE \in {"shipped", "made"} THEN Program ELSE IF PROFILE = "twice" THEN Twice ELSE IF PROFILE = "traj" THEN (IF Chance(1, 12) THEN World ELSE Traj)
      ELSE (IF Chance(1, 4) THEN World ELSE Msg)
Begin == hist = <<>> /\ hist' = <<[op |-> "session", n |-> 0], World>>
Extend == hist # <<>> /\ Len(hist) < DEPTH /\ hist' = Append(hist, Op)
Write ==
  /\ Len(hist) >= DEPTH
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ ndJsonSerialize(IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script", hist)
  /\ hist' = <<>>
Init == hist = <<>> /\ TLCSet(7, 0)
Next == Begin \/ Extend \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
