-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers, vectors and matrices for the ekf_cal specification.       *)
(*                                                                         *)
(* A real is <<hi, lo>>, the two 32-bit halves of an IEEE double; a vector *)
(* of n reals is the flat sequence of its 2n halves (so a real is a vector *)
(* of length 1 and vectors are concatenated with \o); a matrix is          *)
(* [r |-> rows, c |-> columns, d |-> row-major vector].  TLC evaluates the *)
(* operators below through java/ekfnum/Num.java; the bodies only give them *)
(* an arity.  All indices are 1-based.                                     *)
(***************************************************************************)
LOCAL Undef == CHOOSE x : x \notin {0}

RI(n) == Undef                \* the integer n
RQ(n, d) == Undef             \* n / d
RE(n, e) == Undef             \* n * 10^e
RAdd(a, b) == Undef
RSub(a, b) == Undef
RMul(a, b) == Undef
RDiv(a, b) == Undef
RNeg(a) == Undef
RAbs(a) == Undef
RSqrt(a) == Undef
RSin(a) == Undef
RCos(a) == Undef
RTan(a) == Undef
RAtan2(y, x) == Undef
RLt(a, b) == Undef
RLe(a, b) == Undef
RFloor(a) == Undef            \* an integer
RFinite(v) == Undef           \* every entry is a number
RShow(v) == Undef             \* decimal rendering

VLen(v) == Undef
VAt(v, i) == Undef
VZero(n) == Undef
VSlice(v, i, n) == Undef      \* n entries from i on
VAdd(a, b) == Undef
VSub(a, b) == Undef
VScale(s, a) == Undef
VDot(a, b) == Undef
VNorm(a) == Undef
VNear(a, b, abs, rel) == Undef
VNearEach(a, b, abs, rel) == Undef   \* the same, each entry by its own size

MZero(r, c) == Undef
MEye(n) == Undef
MDiag(v) == Undef
MDiagOf(m) == Undef
MAdd(a, b) == Undef
MSub(a, b) == Undef
MScale(s, a) == Undef
MMul(a, b) == Undef
MT(a) == Undef
MVec(a, v) == Undef           \* matrix times vector
MInv(a) == Undef
MBlock(a, i, j, nr, nc) == Undef
MPaste(a, i, j, b) == Undef   \* a with b written at (i, j)
MGather(a, idx) == Undef      \* [i,j] |-> a[idx[i], idx[j]], 0 where an index is 0
MNear(a, b, abs, rel) == Undef
MNearCov(a, b, rel, abs) == Undef
MMax(a) == Undef              \* largest absolute entry
MDiff(a, b) == Undef
MSymmetric(a, rel) == Undef
MPsd(a, tol) == Undef
=============================================================================
