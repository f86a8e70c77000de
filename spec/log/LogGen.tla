------------------------------- MODULE LogGen -------------------------------
(***************************************************************************)
(* Scripts of logger calls.  Profiles data and debug are drawn at random   *)
(* (long histories); alldata and alldebug are every history up to a depth, *)
(* enumerated by TLC's breadth-first search.                               *)
(***************************************************************************)
EXTENDS LogCore, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist, aux
vars == <<hist, aux>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Chance(n, d) == Pick(1..d) <= n
All == PROFILE \in {"alldata", "alldebug"}
Out == IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script"

(* ---- data ---- *)
Headers == {"time,a,b", "h", ""}
Rates == {0, 1, 3, 4, 8, 40}
(* rows of a few and of many characters *)
Cells == ",0.123456789,-0.123456789,1234567.891011,-1234567.891011,0.000000001"
Row(k) == "row" \o ToString(k) \o ",1.5" \o
          (IF k % 7 = 3 THEN Cells \o Cells \o Cells \o Cells \o Cells \o Cells ELSE "") \o (IF k % 11 = 5 THEN " a b" ELSE "")
NewD(id) == [op |-> "dnew", id |-> id, how |-> Pick(0..2), rate |-> Pick(Rates), hdr |-> Pick(Headers)]
DataOp ==
  LET id == Pick(1..2)
      c == Pick(1..12)
      dt == Pick({0, 0, 1, 1, 2, 3, 5, 8, 20, 60})
  IN CASE c <= 6 -> [op |-> "drl", id |-> id, row |-> Row(Len(hist)), t |-> aux.t + dt]
       [] c <= 8 -> [op |-> "dlog", id |-> id, row |-> Row(Len(hist))]
       [] c = 9 -> [op |-> "don", id |-> id]
       [] c = 10 -> IF Chance(1, 3) THEN [op |-> "drate", id |-> id, rate |-> Pick(Rates)]
                    ELSE [op |-> "drl", id |-> id, row |-> Row(Len(hist)), t |-> aux.t + dt]
       [] c = 11 -> IF aux.opened THEN [op |-> "don", id |-> id]
                    ELSE [op |-> "dhdr", id |-> id, hdr |-> Pick(Headers)]
       [] OTHER -> (* late rows: times may also step back *)
            [op |-> "drl", id |-> id, row |-> Row(Len(hist)), t |-> aux.t - Pick(0..5)]
(* ---- debug ---- *)
Dots == "................................................................"
Long(k) == IF k = 0 THEN Dots ELSE IF k = 1 THEN Dots \o Dots \o Dots \o Dots
           ELSE Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o Dots \o "end"
Texts == {"plain", "", "a, b; c", "100% %s %d", "two words", "[WARN ]: inner", "   ",
          "two\nlines", "ends with one\n", "\n", "\nstarts", "tab\there", "\"quoted\" \\ slash",
          Long(0), Long(1), Long(2)}
DebugOp ==
  IF Chance(2, 5) THEN [op |-> "gset", how |-> Pick(0..1), lv |-> Pick(0..4)]
  ELSE [op |-> "gmsg", lv |-> Pick(0..4), txt |-> Pick(Texts)]

Opens(o) == o.op \in {"dlog", "drl"}
Start == CASE PROFILE = "data" -> <<[op |-> "session", n |-> 0], NewD(1), NewD(2)>>
           [] OTHER -> <<[op |-> "session", n |-> 0], [op |-> "gnew", how |-> Pick(0..1), lv |-> Pick(0..4)]>>
T0 == Pick({0, 0, 8, -16, 4000})
RandomStep ==
  \/ /\ hist = <<>> /\ hist' = Start /\ aux' = [t |-> T0, opened |-> FALSE]
  \/ /\ hist # <<>> /\ Len(hist) < DEPTH
     /\ \E o \in {IF PROFILE = "data" THEN DataOp ELSE DebugOp} :
          /\ hist' = Append(hist, o)
          /\ aux' = [t |-> IF o.op = "drl" /\ o.t > aux.t THEN o.t ELSE aux.t, opened |-> aux.opened \/ Opens(o)]
  \/ /\ Len(hist) >= DEPTH
     /\ TLCSet(7, TLCGet(7) + 1) /\ ndJsonSerialize(Out, hist)
     /\ hist' = <<>> /\ aux' = [t |-> 0, opened |-> FALSE]

(* ---- every history ---- *)
AllStart == IF PROFILE = "alldata"
            THEN {<<[op |-> "session", n |-> 0], [op |-> "dnew", id |-> 1, how |-> h, rate |-> r, hdr |-> "h"]>> :
                     h \in {2}, r \in {0, 4, 8}}
            ELSE {<<[op |-> "session", n |-> 0], [op |-> "gnew", how |-> h, lv |-> l]>> : h \in 0..1, l \in 0..4}
AllOps == IF PROFILE = "alldata"
          THEN {[op |-> "don", id |-> 1], [op |-> "dlog", id |-> 1, row |-> Row(Len(hist))]} \cup
               {[op |-> "drl", id |-> 1, row |-> Row(Len(hist)), t |-> aux.t + x] : x \in {0, 4, 9}}
          ELSE {[op |-> "gset", how |-> h, lv |-> l] : h \in 0..1, l \in 0..4} \cup
               {[op |-> "gmsg", lv |-> l, txt |-> "m"] : l \in 0..4}
AllStep ==
  \/ /\ hist = <<>> /\ hist' \in AllStart /\ aux' = [t |-> 8, opened |-> FALSE]
  \/ /\ hist # <<>> /\ Len(hist) < DEPTH
     /\ \E o \in AllOps : /\ hist' = Append(hist, o)
                          /\ aux' = [aux EXCEPT !.t = IF o.op = "drl" THEN o.t ELSE @]
  \/ /\ Len(hist) = DEPTH
     /\ TLCSet(7, TLCGet(7) + 1) /\ ndJsonSerialize(Out, hist)
     /\ UNCHANGED vars
Init == hist = <<>> /\ aux = [t |-> 0, opened |-> FALSE] /\ TLCSet(7, 0)
Next == IF All THEN AllStep ELSE RandomStep
Spec == Init /\ [][Next]_vars
=============================================================================
