------------------------------ MODULE EvalGen ------------------------------
(* Sets of runs of one configuration, and statistics over runs. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist
vars == <<hist>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
(* n: runs in the file; over: runs asked for on the command line (0: none); time likewise *)
Set == [op |-> "set", n |-> Pick({0, 1, 2, 3, 5, 9, 10, 11, 23, 40, 101}), over |-> Pick({0, 0, 1, 2, 4, 10, 12}), seed |-> Pick({0, 1, 2, 77}),
        time |-> Pick({0, 0, 3, 8}), start |-> Pick(0..3), first |-> Pick({0, 0, 5}), sub |-> Pick(0..1), fill |-> Pick(1..1000000)]
Run == [op |-> "runs", n |-> Pick(1..6), files |-> Pick(1..2), over |-> Pick({0, 0, 3}), time |-> Pick({0, 2}), seed |-> Pick(1..3), jobs |-> Pick(1..3), first |-> Pick(0..1),
        start |-> Pick(0..3), sub |-> Pick(0..1), err |-> Pick(0..1), fill |-> Pick(1..1000000)]
Stats == [op |-> "stats", n |-> Pick(1..4), imus |-> Pick(0..2), cams |-> Pick(0..2), gpss |-> Pick(0..2), many |-> Pick({0, 0, 0, 9}),
          rows |-> Pick(2..9), early |-> Pick(0..1), sub |-> Pick(0..1), fill |-> Pick(1..1000000)]
Op == LET k == Pick(1..10) IN IF k <= 4 THEN Set ELSE IF k = 5 THEN Run ELSE Stats
Begin == hist = <<>> /\ hist' = <<[op |-> "session", n |-> 0, driver |-> "eval"]>>
Extend == hist # <<>> /\ Len(hist) < DEPTH /\ hist' = Append(hist, Op)
Write ==
  /\ Len(hist) >= DEPTH
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ ndJsonSerialize(IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script", hist)
  /\ hist' = <<>>
Init == hist = <<>> /\ TLCSet(7, 0)
Next == Begin \/ Extend \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
