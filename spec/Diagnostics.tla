----------------------------- MODULE Diagnostics ----------------------------
(***************************************************************************)
(* Convergence tests of a parameter sampled by several walkers; a walker   *)
(* is a sequence of numbers.                                               *)
(***************************************************************************)
EXTENDS Exact, Integers, Sequences, TLC

Mean(x) == QDiv(QSum(x), Len(x))
SumSq(x) == LET r == QShift(x, Mean(x)) IN QDot(r, r)

(* Gelman and Rubin (1992).                                                *)
W(ws) == QDiv(QSum([j \in DOMAIN ws |-> QDiv(SumSq(ws[j]), Len(ws[j]) - 1)]), Len(ws))
BOverN(ws) == QDiv(SumSq([j \in DOMAIN ws |-> Mean(ws[j])]), Len(ws) - 1)
Pooled(ws) == LET n == Len(ws[1])  b == BOverN(ws) IN
  QAdd(QAdd(QDiv(QMul(n - 1, W(ws)), n), b), QDiv(b, Len(ws)))
R(ws) == QSqrt(QDiv(Pooled(ws), W(ws)))
Excess(ws) == QAbs(QSub(R(ws), "1"))

(* Spectral density at zero of a second order autoregression fitted with   *)
(* the Yule-Walker equations (lag k divided by n - k).                     *)
Lag(r, k) == QDiv(QDot(SubSeq(r, 1, Len(r) - k), SubSeq(r, k + 1, Len(r))), Len(r) - k)
Spectral(x) ==
  LET r == TLCEval(QShift(x, Mean(x)))
      r0 == Lag(r, 0)  r1 == Lag(r, 1)  r2 == Lag(r, 2)
      det == QSub(QMul(r0, r0), QMul(r1, r1))
      a == QDiv(QSub(QMul(r1, r0), QMul(r2, r1)), det)
      b == QDiv(QSub(QMul(r0, r2), QMul(r1, r1)), det)
      s2 == QSub(QSub(r0, QMul(r1, a)), QMul(r2, b))
      g == QSub(QSub("1", a), b)
  IN QDiv(s2, QMul(g, g))
Opening(x, first) == SubSeq(x, 1, QInt(QFloor(QMul(first, Len(x)))))
Closing(x, last) == SubSeq(x, QInt(QFloor(QMul(QSub("1", last), Len(x)))) + 1, Len(x))
\* Very short stretches may fit no autoregression.
Defined(x, first, last) == QLt("0", Spectral(Opening(x, first))) /\ QLt("0", Spectral(Closing(x, last)))
Geweke(x, first, last) ==
  LET a == Opening(x, first)  b == Closing(x, last) IN
  QDec(QDiv(QSub(Mean(a), Mean(b)), QSqrt(QAdd(QDiv(Spectral(a), Len(a)), QDiv(Spectral(b), Len(b))))))

(* The D'Agostino-Pearson omnibus test of normality of z (n >= 8).         *)
Moment(r, k) == QDec(QDiv(IF k = 2 THEN QDot(r, r) ELSE IF k = 3 THEN QDot3(r, r, r) ELSE LET s == [i \in DOMAIN r |-> QMul(r[i], r[i])] IN QDot(s, s), Len(r)))
SkewZ(n, m2, m3) ==
  LET g == QDiv(m3, QMul(m2, QSqrt(m2)))
      y == QMul(g, QSqrt(QDiv((n + 1) * (n + 3), 6 * (n - 2))))
      beta == QDiv(QMul(3 * (n * n + 27 * n - 70), (n + 1) * (n + 3)), QMul((n - 2) * (n + 5), (n + 7) * (n + 9)))
      w2 == QSub(QSqrt(QMul("2", QSub(beta, "1"))), "1")
      delta == QDiv("1", QSqrt(QMul("1/2", QLn(w2))))
      t == QDec(QDiv(y, QSqrt(QDiv("2", QSub(w2, "1")))))
  IN QDec(QMul(delta, QLn(QAdd(t, QSqrt(QAdd(QMul(t, t), "1"))))))
KurtZ(n, m2, m4) ==
  LET b == QDiv(m4, QMul(m2, m2))
      v == QDiv(QMul(24 * n, (n - 2) * (n - 3)), QMul((n + 1) * (n + 1), (n + 3) * (n + 5)))
      x == QDec(QDiv(QSub(b, QDiv(3 * (n - 1), n + 1)), QSqrt(v)))
      sb == QDec(QMul(QDiv(6 * (n * n - 5 * n + 2), (n + 7) * (n + 9)), QSqrt(QDiv(6 * (n + 3) * (n + 5), n * (n - 2) * (n - 3)))))
      a == QDec(QAdd("6", QMul(QDiv("8", sb), QAdd(QDiv("2", sb), QSqrt(QAdd("1", QDiv("4", QMul(sb, sb))))))))
      den == QAdd("1", QMul(x, QSqrt(QDiv("2", QSub(a, "4")))))
      root == QPow(QDiv(QSub("1", QDiv("2", a)), QAbs(den)), "1/3")
      t == IF QLt(den, "0") THEN QNeg(root) ELSE root
  IN QDec(QDiv(QSub(QSub("1", QDiv("2", QMul("9", a))), t), QSqrt(QDiv("2", QMul("9", a)))))
Normality(z) ==
  LET n == Len(z)  r == TLCEval([i \in DOMAIN z |-> QDec(QSub(z[i], Mean(z)))])
      m2 == Moment(r, 2)  s == SkewZ(n, m2, Moment(r, 3))  k == KurtZ(n, m2, Moment(r, 4))
  IN QExp(QMul("-1/2", QAdd(QMul(s, s), QMul(k, k))))
=============================================================================
