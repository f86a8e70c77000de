----------------------------- MODULE TrackTrace -----------------------------
(* Validates recorded frames of the real feature tracker against TrackCore. *)
EXTENDS TrackCore, Json, IOUtils, TLC
CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, cfg, pend, bad
vars == <<i, cfg, pend, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}
Range(s) == {s[k] : k \in 1..Len(s)}

Seen(e) == [x \in Range(e.vis) |->
              [f |-> e.fid, t |-> e.tt, px |-> e.px[CHOOSE k \in 1..Len(e.vis) : e.vis[k] = x]]]
FrameChecks(e, seen, long) ==
  LET del == Delivered(long, seen, cfg.min, cfg.max)
      one(tr) == Len(tr.ids) > 0 /\ \A k \in 1..Len(tr.ids) : tr.ids[k] = tr.ids[1]
      got == {tr.ids[1] : tr \in {x \in Range(e.tracks) : Len(x.ids) > 0}}
  IN Chk("C18", "message", e.trk = cfg.trk /\ e.snr = cfg.cam /\ e.typ /\ e.mt = e.tt)
     \cup Chk("C18", "one feature per track", \A k \in 1..Len(e.tracks) : one(e.tracks[k]))
     \cup Chk("C18", "each feature once", Len(e.tracks) = 0 \/ \A j, k \in 1..Len(e.tracks) :
                 j # k /\ Len(e.tracks[j].ids) > 0 /\ Len(e.tracks[k].ids) > 0 => e.tracks[j].ids[1] # e.tracks[k].ids[1])
     \cup Chk("C18", "delivered when finished", got \subseteq del)
     \cup Chk("C18", "nothing withheld", del \subseteq got)
     \cup Chk("C18", "observations", \A k \in 1..Len(e.tracks) :
                 LET tr == e.tracks[k] IN
                 (Len(tr.ids) > 0 /\ tr.ids[1] \in DOMAIN long) => tr.ob = long[tr.ids[1]])
     \cup Chk("C18", "true position", \A k \in 1..Len(e.tracks) : e.tracks[k].fp = e.tracks[k].tp)
Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == i = 1 /\ bad = {} /\ pend = NoTracks /\ cfg = <<>>
Next ==
  /\ i <= N
  /\ LET e == Trace[i]
     IN CASE e.op = "tnew" -> cfg' = e /\ pend' = NoTracks /\ UNCHANGED bad
          [] e.op = "tframe" ->
               \E seen \in {Seen(e)} : \E long \in {Longer(pend, seen)} :
               \E f \in {FrameChecks(e, seen, long)} :
                 /\ pend' = Remaining(long, seen, cfg.max) /\ UNCHANGED cfg
                 /\ Report(f) /\ bad' = bad \cup f
          [] OTHER -> UNCHANGED <<cfg, pend, bad>>
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
