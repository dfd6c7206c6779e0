--------------------------------- MODULE Kde ---------------------------------
(***************************************************************************)
(* The matched elliptical Gaussian kernel estimate.                        *)
(* k = [pts  training points, each a sequence of coordinates,  ws weights, *)
(*      factor, trunc, nmin].  Distances are those in the metric of the    *)
(* weighted covariance of the training points.                             *)
(***************************************************************************)
EXTENDS Exact, FiniteSets, TLC

Dim(k) == Len(k.pts[1])
Coord(k, j) == [i \in DOMAIN k.pts |-> k.pts[i][j]]
V1(k) == QSum(k.ws)
Centre(k) == [j \in 1..Dim(k) |-> QDec(QDiv(QDot(Coord(k, j), k.ws), V1(k)))]
(* Reliability weights, as numpy's aweights with one degree of freedom.    *)
Covar(k) ==
  LET m == Centre(k)  f == QDec(QSub(V1(k), QDiv(QDot(k.ws, k.ws), V1(k))))
      r == [j \in 1..Dim(k) |-> QShift(Coord(k, j), m[j])]
  IN TLCEval([a, b \in 1..Dim(k) |-> QDec(QDiv(QDot3(r[a], r[b], k.ws), f))])

Others(n, a) == IF a = 1 THEN <<2, 3>> ELSE IF a = 2 THEN <<1, 3>> ELSE <<1, 2>>
Minor2(c, r, s) == QSub(QMul(c[r[1], s[1]], c[r[2], s[2]]), QMul(c[r[1], s[2]], c[r[2], s[1]]))
Cof3(c, a, b) == LET v == Minor2(c, Others(3, a), Others(3, b)) IN IF (a + b) % 2 = 0 THEN v ELSE QNeg(v)
Det(c, n) == IF n = 1 THEN c[1, 1] ELSE IF n = 2 THEN Minor2(c, <<1, 2>>, <<1, 2>>)
             ELSE QSum([b \in 1..3 |-> QMul(c[1, b], Cof3(c, 1, b))])
Inverse(c, n) ==
  LET d == Det(c, n) IN
  TLCEval([a, b \in 1..n |->
    QDec(IF n = 1 THEN QDiv("1", d)
         ELSE IF n = 2 THEN QDiv(IF a = b THEN c[3 - a, 3 - b] ELSE QNeg(c[a, b]), d)
         ELSE QDiv(Cof3(c, b, a), d))])

(* What is needed again and again.                                         *)
Ready(k) == LET n == Dim(k) IN
  TLCEval([inv |-> Inverse(Covar(k), n), dim |-> n,
           var |-> QMul(QMul("4", QMul(k.factor, k.factor)), QPow(Len(k.pts), QDiv(-2, 4 + n)))])
(* Squared distances of the training points from t.                        *)
Dist(k, z, t) == TLCEval([i \in DOMAIN k.pts |->
  QDec(QSum([ab \in 1..(z.dim * z.dim) |->
    LET a == 1 + ((ab - 1) \div z.dim)  b == 1 + ((ab - 1) % z.dim)
    IN QMul(QMul(QSub(k.pts[i][a], t[a]), z.inv[a, b]), QSub(k.pts[i][b], t[b]))]))])
Radius2(k, z) == QMul(QMul(k.trunc, k.trunc), z.var)
Within(k, z, d) == {i \in DOMAIN d : QLe(d[i], Radius2(k, z))}
Rank(d, i) == Cardinality({j \in DOMAIN d : QLt(d[j], d[i]) \/ (QEq(d[j], d[i]) /\ j < i)})
Nearest(k, d) == {i \in DOMAIN d : Rank(d, i) < k.nmin}
Used(k, z, d) == LET w == Within(k, z, d) IN IF Cardinality(w) >= k.nmin THEN w ELSE Nearest(k, d)
(* Nothing is left of a kernel beyond forty widths.                         *)
Kernel(z, dd) == LET e == QDiv(dd, QMul("-2", z.var)) IN IF QLt(e, "-800") THEN "0" ELSE QExp(e)
Estimate(k, z, t) ==
  LET d == Dist(k, z, t)  u == TLCEval(Used(k, z, d))
  IN QSum([i \in DOMAIN d |-> IF i \in u THEN QMul(k.ws[i], Kernel(z, d[i])) ELSE "0"])

(* No rounding decides which points are used.                              *)
Clear(k, z, t) ==
  LET d == Dist(k, z, t)  r == Radius2(k, z)  w == TLCEval(Within(k, z, d)) IN
  /\ \A i \in DOMAIN d : ~QNear(d[i], r, "1e-7", "0")
  /\ Cardinality(w) < k.nmin =>
       LET u == TLCEval(Nearest(k, d)) IN
       \A i \in u, j \in DOMAIN d \ u : ~QNear(d[i], d[j], "1e-7", "1e-12") \/ QEq(k.ws[i], k.ws[j])
=============================================================================
