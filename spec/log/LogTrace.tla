------------------------------ MODULE LogTrace ------------------------------
(* Validates recorded calls of the real loggers against LogCore. *)
EXTENDS LogCore, Json, IOUtils, TLC
CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, ds, lv, bad
vars == <<i, ds, lv, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}

DataNext(e) ==
  CASE e.op = "dnew" -> NewData(e.rate, e.hdr)
    [] e.op = "don" -> DataOn(ds[e.id])
    [] e.op = "drate" -> DataRate(ds[e.id], e.rate)
    [] e.op = "dhdr" -> DataHeader(ds[e.id], e.hdr)
    [] e.op = "dlog" -> DataLog(ds[e.id], e.row)
    [] e.op = "drl" -> DataLimited(ds[e.id], e.row, e.t)
IsData(e) == e.op \in {"dnew", "don", "drate", "dhdr", "dlog", "drl"}
DataChecks(e, d) ==
  Chk("C19", "file exists", e.made = Made(d))
  \cup Chk("C19", "contents", e.file = d.file)
DebugChecks(e) ==
  CASE e.op = "gset" -> Chk("C21", "level change", e.out = SetOut(lv, e.lv) /\ e.err = "")
    [] e.op = "gmsg" -> Chk("C21", "message", e.out = MsgOut(lv, e.lv, e.txt) /\ e.err = MsgErr(lv, e.lv, e.txt))
    [] OTHER -> {}
Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == i = 1 /\ bad = {} /\ ds = <<>> /\ lv = 0
Next ==
  /\ i <= N
  /\ LET e == Trace[i]
     IN IF IsData(e)
        THEN \E d \in {DataNext(e)} : \E f \in {DataChecks(e, d)} :
               /\ ds' = (e.id :> d) @@ ds /\ UNCHANGED lv
               /\ Report(f) /\ bad' = bad \cup f
        ELSE \E f \in {DebugChecks(e)} :
               /\ ds' = (IF e.op = "session" THEN <<>> ELSE ds)
               /\ lv' = (IF e.op \in {"gnew", "gset"} THEN e.lv ELSE lv)
               /\ Report(f) /\ bad' = bad \cup f
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
