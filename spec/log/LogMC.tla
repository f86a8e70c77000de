------------------------------- MODULE LogMC -------------------------------
(***************************************************************************)
(* Exhaustive check of the data-log state machine for all call sequences   *)
(* up to a bound: the rules of LogCore imply what a reader of the file     *)
(* relies on.                                                              *)
(***************************************************************************)
EXTENDS LogCore
CONSTANTS STEPS, TMAX, RATES
VARIABLES d, now, n, free, first, offered
vars == <<d, now, n, free, first, offered>>
(* free: rows written without limit; first: 1 when a limited row was offered while on *)
Init == /\ \E r \in RATES : d = NewData(r, "h")
        /\ now = 0 /\ n = 0 /\ free = 0 /\ first = 0 /\ offered = <<>>
Name(k) == <<k>>
Tick == now' \in now..TMAX
Step ==
  /\ n < STEPS /\ n' = n + 1 /\ Tick
  /\ \/ d' = DataOn(d) /\ UNCHANGED <<free, first, offered>>
     \/ /\ d' = DataLog(d, Name(n))
        /\ free' = free + (IF d.on THEN 1 ELSE 0) /\ offered' = Append(offered, Name(n)) /\ UNCHANGED first
     \/ /\ d' = DataLimited(d, Name(n), now')
        /\ first' = (IF d.on THEN 1 ELSE first) /\ offered' = Append(offered, Name(n)) /\ UNCHANGED free
Next == Step
Spec == Init /\ [][Next]_vars
HeaderOnce == Made(d) => d.file[1] = "h" /\ Rows(d) >= 1
NothingWhenOff == ~d.on => ~Made(d)
(* rows appear in the order offered, none twice *)
InOrder == \A a, b \in 2..Len(d.file) : a < b =>
              \E x, y \in 1..Len(offered) : x < y /\ offered[x] = d.file[a] /\ offered[y] = d.file[b]
(* the limit: beyond the first and the unlimited rows, at most ceil(rate * elapsed) *)
Limit == (d.timed /\ d.rate > 0) =>
            32 * (Rows(d) - free - 1) <= d.rate * (now - d.t0)
NoLimit == (d.on /\ d.rate = 0 /\ n > 0) => Accepts(d, now)
FirstKept == d.timed => Rows(d) >= 1
OnlyGrows == [][Len(d'.file) >= Len(d.file) /\ SubSeq(d'.file, 1, Len(d.file)) = d.file]_vars
=============================================================================
