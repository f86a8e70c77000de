----------------------------- MODULE VisionGen -----------------------------
(***************************************************************************)
(* What a camera may see: windows moving over a textured canvas, with      *)
(* stops, jumps, covered regions and blank images (profile images); and    *)
(* inputs of the tracker's own selections (profile picks).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS PROFILE, DEPTH
VARIABLES hist, at
vars == <<hist, at>>
Pick(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE 0
Chance(n, d) == Pick(1..d) <= n
Seed == Pick(1..1000000)
W == 240
H == 180
Canvas == 480
Clip(v, hi) == IF v < 0 THEN 0 ELSE IF v > hi THEN hi ELSE v
(* detector, descriptor, matcher, threshold *)
Kinds == {<<1, 0, 0, 20>>, <<1, 0, 1, 20>>, <<1, 0, 1, 20>>, <<2, 0, 0, 20>>, <<2, 0, 1, 20>>, <<2, 1, 0, 20>>, <<2, 1, 1, 20>>,
          <<4, 0, 1, 20>>, <<5, 1, 1, 20>>, <<0, 0, 0, 40>>, <<1, 1, 1, 30>>}
New == LET k == Pick(Kinds) mx == Pick({2, 3, 4, 6, 6, 10, 20})
       IN [op |-> "vnew", det |-> k[1], desc |-> k[2], match |-> k[3], thr |-> k[4], px |-> Pick({1, 2, 4, 9}),
           min |-> Clip(Pick({0, 1, 2, 2, 2, 3, 4}), mx), max |-> mx, down |-> Pick({0, 0, 1}), w |-> W, h |-> H,
           canvas |-> Canvas, tile |-> Pick({0, 0, 0, 60, 80}), noise |-> Pick({0, 0, 2}), grain |-> Pick({120, 250, 250, 1500}), seed |-> Seed]
Here == IF PROFILE = "boards" \/ Chance(1, 5) THEN at
        ELSE IF hist[2].tile = 0 /\ Chance(1, 10) THEN [at EXCEPT !.x = Pick(0..(Canvas - W)), !.y = Pick(0..(Canvas - H))]
        ELSE [at EXCEPT !.x = Clip(@ + Pick(-12..12), Canvas - W), !.y = Clip(@ + Pick(-9..9), Canvas - H)]
Cover == IF Chance(1, 3) THEN <<<<Pick(0..400), Pick(0..400), 80, 80>>>> ELSE <<>>
Look(a) == [op |-> "vframe", ox |-> a.x, oy |-> a.y, t |-> a.t, hide |-> Cover, blank |-> IF Chance(1, 10) THEN 1 ELSE 0, seed |-> Seed]
(* boards: two cameras, the boards they watch (first camera always has one), perhaps a third camera *)
(* that watches nothing; every image shows at most one board                                        *)
Dicts == <<0, 4, 8, 12>>
Board(c, k) == LET t == Pick({0, 1}) IN
  [cam |-> c, type |-> t, dict |-> Dicts[k], nx |-> IF t = 0 THEN Pick(1..4) ELSE Pick(3..5), ny |-> IF t = 0 THEN Pick(2..4) ELSE Pick(3..5)]
Lens == [pix |-> Pick({1, 10, 1000}), warp |-> Pick({0, 1})]
NewBoards ==
  LET first == Pick(1..4)
      d(k) == ((first + k) % 4) + 1
  IN [op |-> "bnew", cams |-> <<Lens, Lens, Lens>>, boards |-> <<Board(1, d(0)), Board(2, d(1)), Board(Pick({1, 2}), d(2))>>, seed |-> Seed]
(* the same board is not always shown to its own camera *)
Show(a) == LET c == Pick({1, 1, 1, 2, 2, 2, 3})
               own == {k \in 1..3 : hist[2].boards[k].cam = c}
               b == IF Chance(1, 8) THEN Pick(0..3) ELSE IF own = {} THEN 1 ELSE Pick(own)
           IN [op |-> "bframe", cam |-> c, board |-> b, t |-> a.t, empty |-> IF Chance(1, 10) THEN 1 ELSE 0,
               cover |-> IF Chance(1, 6) THEN 1 ELSE 0, noise |-> Pick({0, 0, 1}), seed |-> Seed]
Op(a) == CASE PROFILE = "images" -> Look(a)
           [] PROFILE = "boards" -> Show(a)
           [] Pick(1..3) = 1 -> [op |-> "grid", rows |-> Pick({20, 40, 95, 180}), cols |-> Pick({20, 50, 101, 240}), n |-> Pick({0, 1, 10, 60, 300}), seed |-> Seed]
           [] Pick(1..2) = 1 -> [op |-> "ratio", n |-> Pick({0, 1, 5, 20}), seed |-> Seed]
           [] OTHER -> [op |-> "symm", n |-> Pick({0, 1, 3, 8, 20}), m |-> Pick({1, 3, 8, 20}), seed |-> Seed]
Begin == /\ hist = <<>>
         /\ hist' = <<[op |-> "session", n |-> 0], IF PROFILE = "boards" THEN NewBoards ELSE New>>
         /\ at' = [x |-> Pick(0..(Canvas - W)), y |-> Pick(0..(Canvas - H)), t |-> Pick(0..2000)]
Extend == /\ hist # <<>> /\ Len(hist) < DEPTH
          /\ \E a \in {[Here EXCEPT !.t = @ + Pick({10, 50, 100, 200})]} : hist' = Append(hist, Op(a)) /\ at' = a
Write ==
  /\ Len(hist) >= DEPTH
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ ndJsonSerialize(IOEnv.OUT \o "/" \o PROFILE \o "-" \o ToString(TLCGet(7)) \o ".script", hist)
  /\ hist' = <<>> /\ at' = [x |-> 0, y |-> 0, t |-> 0]
Init == hist = <<>> /\ at = [x |-> 0, y |-> 0, t |-> 0] /\ TLCSet(7, 0)
Next == Begin \/ Extend \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
