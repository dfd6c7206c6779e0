------------------------------ MODULE Marginal ------------------------------
(***************************************************************************)
(* The smoothed marginal density of a parameter, as a kernel estimate.     *)
(* d = [xs, ws  samples and weights,   ps  samples carrying the (powered)  *)
(*      density,  smooth, bins ("none" or a number), kde ("none" or the    *)
(*      bandwidth factor), grid, cols (number of dataframe columns)].      *)
(* The code under test bins the samples before smoothing; a mass computed  *)
(* there may therefore sit up to Slop away from where it is here, and up   *)
(* to Eps of it may be missing at the ends of the range.                   *)
(***************************************************************************)
EXTENDS Exact, FiniteSets, TLC

Total(d) == QSum(d.ws)
Mean(d) == QDiv(QDot(d.xs, d.ws), Total(d))
Spread(d) == LET r == QShift(d.xs, Mean(d)) IN
             QSqrt(QDiv(QDot3(r, r, d.ws), QSub(Total(d), QDiv(QDot(d.ws, d.ws), Total(d)))))

DefaultBins(d) == LET m == IF d.smooth > 0 THEN 35 ELSE 100
                      k == QInt(QFloor(QPow(QDiv(Len(d.xs), d.cols), "1/4")))
                  IN IF k > m THEN k ELSE m
Bins(d) == IF d.bins = "none" THEN DefaultBins(d) ELSE QInt(d.bins)
Cells(d) == IF d.smooth = 0 THEN Bins(d) - 1 ELSE 2 * d.smooth * Bins(d) - 1

(* The spacing of a regular grid, and otherwise of the histogram cells.    *)
Values(d) == {d.xs[i] : i \in DOMAIN d.xs}
GridStep(d) == QDiv(QSub(QMaxSeq(d.xs), QMinSeq(d.xs)), Cardinality(Values(d)) - 1)

Build(d, pad) ==
  LET a0 == IF d.grid THEN QSub(QMinSeq(d.xs), QMul("1/2", GridStep(d))) ELSE QQuantile(d.xs, d.ws, "1e-5")
      b0 == IF d.grid THEN QAdd(QMaxSeq(d.xs), QMul("1/2", GridStep(d))) ELSE QQuantile(d.xs, d.ws, "0.99999")
      w == QSub(b0, a0)
      lo == IF pad /\ ~d.grid THEN QSub(a0, QMul("1/5", w)) ELSE a0
      hi == IF pad /\ ~d.grid THEN QAdd(b0, QMul("1/5", w)) ELSE b0
      h == IF d.grid THEN GridStep(d) ELSE QDiv(QSub(hi, lo), Cells(d))
      sigma == IF d.kde # "none" THEN QMul(QMul(QMul("2", d.kde), QPow(Len(d.xs), "-1/5")), Spread(d))
               ELSE IF d.smooth = 0 THEN "0" ELSE QMul(h, QSqrt(QAdd(d.smooth * d.smooth, "1/4")))
      trim == IF d.grid THEN "0"
              ELSE QAdd(QDenMass(d.xs, d.ws, "0", lo, hi, FALSE, lo, QAdd(a0, QDiv(w, 1500))),
                        QDenMass(d.xs, d.ws, "0", lo, hi, FALSE, QSub(b0, QDiv(w, 1500)), hi))
      reach == QMul(h, 4 * d.smooth + 1)
      frac == IF d.smooth <= 1 THEN "1/2" ELSE QDiv("1/2", d.smooth)
      edge == QMul(frac, QAdd(QDenMass(d.xs, d.ws, "0", lo, hi, FALSE, lo, QAdd(lo, reach)),
                              QDenMass(d.xs, d.ws, "0", lo, hi, FALSE, QSub(hi, reach), hi)))
  IN TLCEval([xs |-> d.ps, ws |-> d.ws, lo |-> lo, hi |-> hi, sigma |-> sigma, mirror |-> d.kde = "none",
      slop |-> QMul("2", h), h |-> h, width |-> QSub(hi, lo),
      eps |-> IF d.kde # "none" THEN "1/80" ELSE QAdd("1/2000", QAdd(trim, edge)),
      dtol |-> IF d.kde # "none" \/ d.smooth >= 3 THEN "1/10" ELSE IF d.smooth = 2 THEN "3/20" ELSE "3/10",
      \* what an extreme sample that falls off the end adds to the density
      dabs |-> IF sigma = "0" THEN "0" ELSE QDiv(trim, sigma),
      smoothed |-> sigma # "0"])

Mass(m, a, b) == QDenMass(m.xs, m.ws, m.sigma, m.lo, m.hi, m.mirror, a, b)
Density(m, x) == QDen(m.xs, m.ws, m.sigma, m.lo, m.hi, m.mirror, x)
Highest(m, a, b) == QDenMax(m.xs, m.ws, m.sigma, m.lo, m.hi, m.mirror, a, b)
Lowest(m, a, b) == QDenMin(m.xs, m.ws, m.sigma, m.lo, m.hi, m.mirror, a, b)
Window(m, width) == QDenWindow(m.xs, m.ws, m.sigma, m.lo, m.hi, m.mirror, width)

(* x is where the cumulative reaches p.                                    *)
Quantile(m, x, p) == /\ QLe(QSub(Mass(m, m.lo, QSub(x, m.slop)), m.eps), p)
                     /\ QLe(p, QAdd(Mass(m, m.lo, QAdd(x, m.slop)), m.eps))
InRange(m, x) == QLe(QSub(m.lo, m.slop), x) /\ QLe(x, QAdd(m.hi, m.slop))
Holds(m, a, b, p, t) == /\ QLe(p, QAdd(Mass(m, QSub(a, m.slop), QAdd(b, m.slop)), QAdd(m.eps, t)))
                        /\ QLe(QSub(Mass(m, QAdd(a, m.slop), QSub(b, m.slop)), QAdd(m.eps, t)), p)
=============================================================================
