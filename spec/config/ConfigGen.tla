----------------------------- MODULE ConfigGen -----------------------------
(* Configurations of the simulation program and of the ROS node, with messages for the node. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist
vars == <<hist>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Read == [op |-> "read", drop |-> Pick({0, 0, 8, 4, 2}), pol |-> Pick(0..4), truth |-> Pick({"cyclic", "cyclic", "spline", "smoother"}),
         imus |-> Pick(0..3), cams |-> Pick({0, 1, 2, 3, 4}), gpss |-> Pick(0..3), trks |-> Pick(0..3), fids |-> Pick(0..3), seed |-> Pick(1..1000000)]
Node == [op |-> "node", drop |-> Pick({0, 0, 8, 4, 2}), pol |-> Pick(0..4), imus |-> Pick(0..3), cams |-> Pick({0, 1, 2, 3}),
         gpss |-> Pick(0..3), trks |-> Pick(0..3), fids |-> Pick({0, 1, 2}), msgs |-> Pick(10..30), seed |-> Pick(1..1000000)]
Begin == hist = <<>> /\ hist' = <<[op |-> "session", n |-> 0]>>
Extend == hist # <<>> /\ Len(hist) < DEPTH /\ hist' = Append(hist, IF PROFILE = "node" THEN Node ELSE Read)
Write ==
  /\ Len(hist) >= DEPTH
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ ndJsonSerialize(IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script", hist)
  /\ hist' = <<>>
Init == hist = <<>> /\ TLCSet(7, 0)
Next == Begin \/ Extend \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
