----------------------------- MODULE EvalTrace -----------------------------
(***************************************************************************)
(* Monte-Carlo sets: which runs a configuration asks for, how they are     *)
(* started, and the statistics over what they wrote.                       *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT ACTIVE
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, bad
vars == <<i, bad>>
Chk(p, name, ok) == IF p \in ACTIVE /\ ~ok THEN {<<p, name>>} ELSE {}
R0 == RI(0)

(* the number of runs: what the command line asks for, or else the file *)
Count(e) == IF e.over # 0 THEN e.over ELSE e.n
Field(s, f(_)) == [k \in 1..Len(s) |-> f(s[k])]
PathOf(r) == r.path
SeedOf(r) == r.seed
NumberOf(r) == r.number
Differ(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
SetChecks(e) ==
  LET n == Count(e)
  IN Chk("C32", "tools run", e.err = "")
     \cup (IF e.err # "" THEN {} ELSE
        Chk("C32", "evaluated runs are the generated ones", e.found = Field(e.made, PathOf))
        \cup IF n <= 1
        THEN Chk("C32", "single run: the file itself", Len(e.made) = 1 /\ e.made[1].path = e.top.path)
        ELSE Chk("C32", "as many files as runs", Len(e.made) = n /\ Differ(Field(e.made, PathOf)) /\ \A k \in 1..Len(e.made) : e.made[k].there)
             \cup (IF \E k \in 1..Len(e.made) : ~e.made[k].there THEN {} ELSE
               Chk("C32", "each a single run", \A k \in 1..Len(e.made) : e.made[k].runs = 1)
               \cup Chk("C32", "the same configuration", \A k \in 1..Len(e.made) : e.made[k].rest = e.top.rest)
               \cup Chk("C32", "duration", \A k \in 1..Len(e.made) : VNear(e.made[k].time, IF e.time # 0 THEN RI(e.time) ELSE e.top.time, R0, R0))
               \cup Chk("C32", "numbered", Differ(Field(e.made, NumberOf)))
               \cup Chk("C32", "seeds differ", e.seed = 0 \/ Differ(Field(e.made, SeedOf)))
               \cup Chk("C32", "unseeded stays unseeded", e.seed # 0 \/ \A k \in 1..Len(e.made) : e.made[k].seed = 0)
               \cup Chk("C32", "reproducible", e.again = e.made)))
        \cup Chk("C32", "the file itself is left", n <= 1 \/ e.err # "" \/ (e.top.there /\ e.top.runs = e.n /\ e.top.number = e.start))

RunChecks(e) ==
  LET yamls == {e.found[k] : k \in 1..Len(e.found)}
  IN Chk("C32", "tools run", e.err = "")
     \cup Chk("C32", "every run started once", {e.calls[k].yaml : k \in 1..Len(e.calls)} = yamls /\ Len(e.calls) = Len(e.found))
     \cup Chk("C32", "each into the directory that is evaluated", \A k \in 1..Len(e.calls) :
              e.calls[k].n = 2 /\ e.calls[k].there /\ \E m \in 1..Len(e.found) : e.found[m] = e.calls[k].yaml /\ e.dirs[m] = e.calls[k].dir)
     \cup Chk("C32", "what it printed is kept", \A k \in 1..Len(e.calls) : e.calls[k].out /\ e.calls[k].err = (e.err0 = 1))

(* the true value at time t: linear between its rows, the nearest row outside *)
RECURSIVE From(_, _, _)
From(tt, t, k) == IF k = 1 \/ RLe(VAt(tt, k), t) THEN k ELSE From(tt, t, k - 1)
At(tt, tv, t) ==
  LET n == VLen(tt) k == From(tt, t, n)
  IN IF RLt(t, VAt(tt, 1)) THEN VAt(tv, 1)
     ELSE IF k = n THEN VAt(tv, n)
     ELSE LET w == RDiv(RSub(t, VAt(tt, k)), RSub(VAt(tt, k + 1), VAt(tt, k)))
          IN RAdd(VAt(tv, k), RMul(w, RSub(VAt(tv, k + 1), VAt(tv, k))))
RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN R0 ELSE RAdd(Sum(f, n - 1), f(n))
Rmse(p) ==
  LET n == VLen(p.et)
      sq(c, k) == LET d == RSub(VAt(p.ev[c], k), At(p.tt, p.tv[c], VAt(p.et, k))) IN RMul(d, d)
      row(k) == RAdd(sq(1, k), RAdd(sq(2, k), sq(3, k)))
  IN RSqrt(RDiv(Sum(row, n), RI(n)))
Mean(v) == LET at(k) == VAt(v, k) IN RDiv(Sum(at, VLen(v)), RI(VLen(v)))
Std(v) == LET m == Mean(v) sq(k) == LET d == RSub(VAt(v, k), m) IN RMul(d, d) IN RSqrt(RDiv(Sum(sq, VLen(v)), RI(VLen(v))))
RECURSIVE Cat(_, _)
Cat(f(_), n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f(n)
Placed(r) == VNorm(VSub(VSlice(r.est, 1, 3), VSlice(r.true, 1, 3)))
Turned(r) == RSub(VAt(r.est, 4), VAt(r.true, 4))
(* every statistic: one number for each run *)
Stats(e) ==
  LET one == e.runs[1] n == Len(e.runs)
      pair(j) == LET f(r) == Rmse(e.runs[r].pairs[j]) IN <<one.pairs[j].name, Cat(f, n)>>
      mean(j) == LET f(r) == Mean(e.runs[r].means[j].v) IN <<one.means[j].name, Cat(f, n)>>
      pos(j) == LET f(r) == Placed(e.runs[r].refs[j]) IN <<one.refs[j].id \o "_err_init_pos", Cat(f, n)>>
      ang(j) == LET f(r) == Turned(e.runs[r].refs[j]) IN <<one.refs[j].id \o "_err_init_ang", Cat(f, n)>>
      cnt(j) == LET f(r) == RI(e.runs[r].refs[j].before) IN <<one.refs[j].id \o "_init_count", Cat(f, n)>>
  IN {pair(j) : j \in 1..Len(one.pairs)} \cup {mean(j) : j \in 1..Len(one.means)}
     \cup {pos(j) : j \in 1..Len(one.refs)} \cup {ang(j) : j \in 1..Len(one.refs)} \cup {cnt(j) : j \in 1..Len(one.refs)}
Tol == RE(6, -5)
Shown(e, s) == \E k \in 1..Len(e.rows) : e.rows[k].name = s[1] /\ VNear(e.rows[k].mean, Mean(s[2]), Tol, R0) /\ VNear(e.rows[k].std, Std(s[2]), Tol, R0)
StatChecks(e) ==
  Chk("C32", "tools run", e.err = "")
  \cup UNION {Chk("C32", "statistic " \o s[1], Shown(e, s)) : s \in Stats(e)}
  \cup Chk("C32", "each statistic once", LET nm(r) == r.name IN Differ(Field(e.rows, nm)))

Report(f) == \A x \in f : PrintT("FAIL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i))
Init == i = 1 /\ bad = {}
Next ==
  /\ i <= N
  /\ LET e == Trace[i]
     IN \E f \in {CASE e.op = "set" -> SetChecks(e) [] e.op = "runs" -> RunChecks(e) [] e.op = "stats" -> StatChecks(e) [] OTHER -> {}} :
          Report(f) /\ bad' = bad \cup f
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Reached == PrintT("REACHED|" \o ToString(TLCGet("stats").diameter) \o "|" \o ToString(N))
=============================================================================
