----------------------------- MODULE TrackCore -----------------------------
(***************************************************************************)
(* The life of feature tracks.  pend maps each feature under observation   *)
(* to the sequence of its observations.  A frame appends one observation   *)
(* to every visible feature; then every feature that was missing from the  *)
(* frame, or whose track has reached the maximum length, is finished:      *)
(* delivered when at least the minimum length, discarded otherwise.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoTracks == [x \in {} |-> <<>>]
Longer(pend, seen) ==            \* seen: feature -> its observation in this frame
  [x \in (DOMAIN pend) \cup (DOMAIN seen) |->
     (IF x \in DOMAIN pend THEN pend[x] ELSE <<>>) \o (IF x \in DOMAIN seen THEN <<seen[x]>> ELSE <<>>)]
Finished(long, seen, mx) == {x \in DOMAIN long : x \notin DOMAIN seen \/ Len(long[x]) >= mx}
Delivered(long, seen, mn, mx) == {x \in Finished(long, seen, mx) : Len(long[x]) >= mn}
Remaining(long, seen, mx) ==
  [x \in (DOMAIN long) \ Finished(long, seen, mx) |-> long[x]]
=============================================================================
