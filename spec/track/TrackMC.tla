------------------------------ MODULE TrackMC ------------------------------
(***************************************************************************)
(* Every visibility history of a few features over a few frames: the rules *)
(* of TrackCore imply what the filter relies on.  An observation is named  *)
(* by its frame number.                                                    *)
(***************************************************************************)
EXTENDS TrackCore, FiniteSets
CONSTANTS FEATURES, FRAMES, MAXLEN
VARIABLES mn, mx, n, pend, out, lost, made
vars == <<mn, mx, n, pend, out, lost, made>>
Init == /\ mx \in 1..MAXLEN /\ mn \in 0..MAXLEN
        /\ n = 0 /\ pend = NoTracks /\ out = {} /\ lost = {} /\ made = {}
Next ==
  /\ n < FRAMES /\ n' = n + 1 /\ UNCHANGED <<mn, mx>>
  /\ \E V \in SUBSET FEATURES :
       LET seen == [x \in V |-> n']
           long == Longer(pend, seen)
           fin == Finished(long, seen, mx)
           del == Delivered(long, seen, mn, mx)
       IN /\ pend' = Remaining(long, seen, mx)
          /\ out' = out \cup {[x |-> x, at |-> n', ob |-> long[x]] : x \in del}
          /\ lost' = lost \cup {[x |-> x, at |-> n', ob |-> long[x]] : x \in fin \ del}
          /\ made' = made \cup {<<x, n'>> : x \in V}
Spec == Init /\ [][Next]_vars
Obs(r) == {<<r.x, r.ob[k]>> : k \in 1..Len(r.ob)}
Pending == UNION {{<<x, pend[x][k]>> : k \in 1..Len(pend[x])} : x \in DOMAIN pend}
(* every observation is pending, delivered or lost, and only one of them, once *)
Once == \A r, s \in out \cup lost : r # s => Obs(r) \cap Obs(s) = {}
Disjoint == /\ \A r \in out \cup lost : Obs(r) \cap Pending = {}
            /\ \A r \in out : \A s \in lost : r # s
Accounted == made = Pending \cup UNION {Obs(r) : r \in out \cup lost}
Lengths == \A r \in out : Len(r.ob) >= mn /\ Len(r.ob) <= mx
Short == \A r \in lost : Len(r.ob) < mn
Consecutive == \A r \in out \cup lost : \A k \in 1..(Len(r.ob) - 1) : r.ob[k + 1] = r.ob[k] + 1
Prompt == \A r \in out \cup lost :
             \/ r.at = r.ob[Len(r.ob)] /\ Len(r.ob) = mx
             \/ r.at = r.ob[Len(r.ob)] + 1 /\ <<r.x, r.at>> \notin made
Current == \A x \in DOMAIN pend : pend[x] # <<>> /\ pend[x][Len(pend[x])] = n /\ Len(pend[x]) < mx
=============================================================================
