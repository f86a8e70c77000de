------------------------------ MODULE TrackGen ------------------------------
(***************************************************************************)
(* Histories of camera views for the feature tracker.  Profile tracks:     *)
(* long random histories; alltracks: every history of four views up to a   *)
(* depth, for several track-length limits; stays: tracks of up to 30       *)
(* frames.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist, aux
vars == <<hist, aux>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Chance(n, d) == Pick(1..d) <= n
Out == IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script"
First == [op |-> "session", n |-> 0]
Long == PROFILE = "stays"
New == [op |-> "tnew", min |-> Pick({0, 1, 2, 2, 3, 5}), max |-> IF Long THEN Pick({12, 20, 30}) ELSE Pick({1, 2, 3, 4, 6, 10}), w |-> Pick({90, 120, 160, 200}),
        exact |-> Chance(1, 2), fc |-> Pick({0, 0, 0, 40}), cam |-> Pick(1..9), seed |-> Pick(1..1000000)]
(* profile stays: views that hardly change, limits seldom reached *)
View == IF Long /\ aux.v \in 1..19 /\ Chance(19, 20) THEN aux.v ELSE IF Chance(1, 8) THEN 0 ELSE IF Chance(1, 6) THEN Pick(20..30) ELSE IF aux.v \in 1..19 /\ Chance(1, 2) THEN aux.v ELSE Pick(1..19)
Frame(v) == [op |-> "tframe", view |-> v, t |-> aux.t + Pick(1..200), fid |-> aux.f + Pick({1, 1, 1, 2, 7}), seed |-> Pick(1..1000000)]
After(o) == [t |-> o.t, f |-> o.fid, v |-> o.view]
Aux0 == [t |-> 0, f |-> 0, v |-> 0]
RandomStep ==
  \/ /\ hist = <<>> /\ hist' = <<First, New>> /\ aux' = [Aux0 EXCEPT !.f = Pick({0, 3, 1000})]
  \/ /\ hist # <<>> /\ Len(hist) < DEPTH
     /\ \E o \in {Frame(View)} : hist' = Append(hist, o) /\ aux' = After(o)
  \/ /\ Len(hist) >= DEPTH
     /\ TLCSet(7, TLCGet(7) + 1) /\ ndJsonSerialize(Out, hist)
     /\ hist' = <<>> /\ aux' = Aux0
AllStart == {<<First, [op |-> "tnew", min |-> a, max |-> b, w |-> 90, exact |-> TRUE, fc |-> 0, cam |-> 4, seed |-> 1]>> :
               a \in {1, 2}, b \in {2, 3}}
AllStep ==
  \/ /\ hist = <<>> /\ hist' \in AllStart /\ aux' = Aux0
  \/ /\ hist # <<>> /\ Len(hist) < DEPTH
     /\ \E v \in {0, 1, 2, 3} :
          LET o == [op |-> "tframe", view |-> v, t |-> aux.t + 100, fid |-> aux.f + 1, seed |-> 1]
          IN hist' = Append(hist, o) /\ aux' = After(o)
  \/ /\ Len(hist) = DEPTH
     /\ TLCSet(7, TLCGet(7) + 1) /\ ndJsonSerialize(Out, hist)
     /\ UNCHANGED vars
Init == hist = <<>> /\ aux = Aux0 /\ TLCSet(7, 0)
Next == IF PROFILE = "alltracks" THEN AllStep ELSE RandomStep
Spec == Init /\ [][Next]_vars
=============================================================================
