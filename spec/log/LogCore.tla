------------------------------ MODULE LogCore ------------------------------
(***************************************************************************)
(* The two loggers as state machines.                                      *)
(*                                                                         *)
(* Data log: a csv file made of a header and the accepted rows.  Times are *)
(* in eighths of a second and rates in quarters of a row per second, so    *)
(* that the limit rows < rate * elapsed is exact: 32 * rows < rate * dt.   *)
(*                                                                         *)
(* Debug log: levels 0 (fatal) to 4 (debug); a message is shown when its   *)
(* level does not exceed the configured one.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* ---------------------------------------------------------------- data log *)
NewData(rate, hdr) ==
  [on |-> FALSE, rate |-> rate, hdr |-> hdr, timed |-> FALSE, t0 |-> 0, file |-> <<>>]
Made(d) == d.file # <<>>
Rows(d) == IF Made(d) THEN Len(d.file) - 1 ELSE 0
Put(d, row) == [d EXCEPT !.file = IF Made(d) THEN Append(@, row) ELSE <<d.hdr, row>>]
DataOn(d) == [d EXCEPT !.on = TRUE]
DataRate(d, r) == [d EXCEPT !.rate = r]
DataHeader(d, h) == [d EXCEPT !.hdr = h]       \* of no effect once the file exists
DataLog(d, row) == IF d.on THEN Put(d, row) ELSE d
Accepts(d, t) == ~d.timed \/ d.rate = 0 \/ 32 * Rows(d) < d.rate * (t - d.t0)
DataLimited(d, row, t) ==
  IF ~d.on THEN d
  ELSE LET e == IF Accepts(d, t) THEN Put(d, row) ELSE d
       IN IF d.timed THEN e ELSE [e EXCEPT !.timed = TRUE, !.t0 = t]

(* ---------------------------------------------------------------- debug log *)
Names == <<"FATAL", "ERROR", "WARN ", "INFO ", "DEBUG">>
InfoLevel == 3
Line(lv, txt) == "[" \o Names[lv + 1] \o "]: " \o txt \o "\n"
Shown(cfg, lv) == lv <= cfg
ToOut(lv) == lv >= InfoLevel
MsgOut(cfg, lv, txt) == IF Shown(cfg, lv) /\ ToOut(lv) THEN Line(lv, txt) ELSE ""
MsgErr(cfg, lv, txt) == IF Shown(cfg, lv) /\ ~ToOut(lv) THEN Line(lv, txt) ELSE ""
(* a change of level is itself announced at INFO, when either level shows INFO *)
SetOut(old, new) ==
  IF Shown(old, InfoLevel) \/ Shown(new, InfoLevel)
  THEN Line(InfoLevel, "Log level set to: " \o Names[new + 1]) ELSE ""
=============================================================================
