------------------------------ MODULE MCMoments -----------------------------
(* Every small weighted sample of two parameters.                           *)
EXTENDS Moments, Json
CONSTANTS ROWS, VALS
V == 0..(VALS - 1)
VARIABLE d
Init == d \in [x : [1..ROWS -> V], y : [1..ROWS -> V], w : [1..ROWS -> {1, 3}]]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
C == Cov(d.x, d.y, d.w)
Vx == Cov(d.x, d.x, d.w)
Vy == Cov(d.y, d.y, d.w)
Symmetric == QEq(C, Cov(d.y, d.x, d.w))
Positive == QLe("0", Vx) /\ (QEq(Vx, "0") <=> \A i, j \in 1..ROWS : d.x[i] = d.x[j])
CauchySchwarz == QLe(QMul(C, C), QMul(Vx, Vy))
ScaleFree == QEq(C, Cov(d.x, d.y, [i \in 1..ROWS |-> 5 * d.w[i]]))
Linear == QEq(Cov([i \in 1..ROWS |-> 2 * d.x[i] - 7], d.y, d.w), QMul("2", C))
Unweighted == (\A i \in 1..ROWS : d.w[i] = 1) => QEq(QMul(ROWS - 1, Vx), QSub(QDot(d.x, d.x), QDiv(QMul(QSum(d.x), QSum(d.x)), ROWS)))
Reordered == LET r(s) == [i \in 1..ROWS |-> s[ROWS + 1 - i]] IN QEq(C, Cov(r(d.x), r(d.y), r(d.w)))
Pooled == QEq(Cov([i \in 1..ROWS |-> d.x[i] + d.y[i]], d.x, d.w), QAdd(C, Vx))
=============================================================================
