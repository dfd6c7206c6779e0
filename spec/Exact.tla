------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Exact rational numbers, written as strings ("3", "-7/4", "2.5e-3"), and *)
(* the few real functions the specification needs.  TLC evaluates these    *)
(* through java/Exact.java (BigInteger fractions, 60-digit transcendental  *)
(* functions); the definitions here only say what each operator denotes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Undefined == CHOOSE x : x \notin {}

QAdd(a, b) == Undefined          \* a + b
QSub(a, b) == Undefined          \* a - b
QMul(a, b) == Undefined          \* a * b
QDiv(a, b) == Undefined          \* a / b
QNeg(a) == Undefined             \* -a
QAbs(a) == Undefined             \* |a|
QCmp(a, b) == Undefined          \* -1, 0, 1
QLe(a, b) == Undefined           \* a <= b
QLt(a, b) == Undefined           \* a < b
QEq(a, b) == Undefined           \* a = b (as numbers)
QMax(a, b) == Undefined
QMin(a, b) == Undefined
QNum(a) == Undefined             \* a denotes a number
QNear(a, b, rel, abs) == Undefined   \* |a - b| <= rel * max(|a|, |b|) + abs
QFloor(a) == Undefined
QInt(a) == Undefined             \* truncation of a as a TLC integer
QPow10(e) == Undefined           \* 10^e, e an integer
QMag(a) == Undefined             \* floor(log10 |a|) as a TLC integer, a # 0
QSum(s) == Undefined             \* sum of a sequence
QDot(s, t) == Undefined          \* sum of s[i] * t[i]
QDot3(s, t, u) == Undefined      \* sum of s[i] * t[i] * u[i]
QShift(s, m) == Undefined        \* [i |-> s[i] - m]
QMaxSeq(s) == Undefined
QMinSeq(s) == Undefined
QMass(xs, ws, lo, hi) == Undefined   \* sum of ws[i] over lo <= xs[i] <= hi
QSqrt(a) == Undefined
QLn(a) == Undefined
QDec(a) == Undefined             \* a to fifty significant digits
QExp(a) == Undefined
QPow(a, e) == Undefined          \* a^e, a >= 0, e real
QPhi(a) == Undefined             \* standard normal distribution function

(* Weighted Gaussian kernel density of samples xs (weights ws, kernel      *)
(* width sg) on [lo, hi], with the samples mirrored at both ends if mir;   *)
(* sg = "0": the samples themselves.  Double precision.                    *)
QDen(xs, ws, sg, lo, hi, mir, at) == Undefined            \* unnormalised density at a point
QDenMax(xs, ws, sg, lo, hi, mir, a, b) == Undefined       \* largest density on [a, b] (401 points)
QDenMin(xs, ws, sg, lo, hi, mir, a, b) == Undefined       \* smallest density on [a, b] (401 points)
QDenMass(xs, ws, sg, lo, hi, mir, a, b) == Undefined      \* share of the mass on [lo, hi] lying in [a, b]
QDenWindow(xs, ws, sg, lo, hi, mir, d) == Undefined       \* largest share of a window of width d
(* Two dimensions, at the centres of the n*n cells of the box bx by (each  *)
(* <<low, high>>), a sequence with the first coordinate outermost: product *)
(* kernels mirrored at the box; the estimate of Kde (inv the inverse       *)
(* covariance <<xx, xy, yy>>, var the squared width).                      *)
QJoint(xs, ys, ws, sx, sy, bx, by, n) == Undefined
QJointKde(xs, ys, ws, inv, var, trunc, nmin, bx, by, n) == Undefined
(* Share of the total of den^p in the cells marked but not, or not marked  *)
(* but, in the region after share a and up to share b by falling density.  *)
QOff(den, bits, p, a, b) == Undefined
SNot(bits) == Undefined          \* exchanges the characters 0 and 1
SBit(bits, i) == Undefined       \* character i is 1
QQuantile(xs, ws, p) == Undefined                         \* smallest x with more than share p at or below it

SLen(s) == Undefined             \* number of characters
SCat(s, t) == Undefined          \* concatenation
SIn(s, t) == Undefined           \* s occurs in t
SStarts(p, s) == Undefined       \* p is a prefix of s
SDropFirst(s) == Undefined
SLower(s) == Undefined
SJoin(sep, q) == Undefined
SHex(s, p) == Undefined          \* value of the hex pair of s at position p
SIsHex6(s) == Undefined          \* s is #rrggbb

(* "yes" / "no" for a boolean, "undef" when e has no value. *)
Guarded(e) == Undefined
=============================================================================
