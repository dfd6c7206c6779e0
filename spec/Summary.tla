------------------------------ MODULE Summary -------------------------------
(* The defining properties of the five summary statistics of a marginal m. *)
EXTENDS Marginal

(* c is a highest point of the density (of the histogram when unsmoothed). *)
Peak(m, c) ==
  IF m.smoothed
  THEN LET top == Highest(m, m.lo, m.hi)
       IN QLe(QSub(QMul(QSub("1", m.dtol), top), m.dabs), Highest(m, QSub(c, m.h), QAdd(c, m.h)))
  ELSE QLe(QMul("1/2", Window(m, m.h)), QAdd("1e-6", Mass(m, QSub(c, QMul("1.2", m.h)), QAdd(c, QMul("1.2", m.h)))))

Tails(a) == <<QDiv(QSub("1", a), "2"), QDiv(QAdd("1", a), "2")>>

Cumulative(m, a, l, c, u) == /\ Quantile(m, l, Tails(a)[1]) /\ Quantile(m, u, Tails(a)[2]) /\ Quantile(m, c, "1/2")
MeanBound(m, a, l, c, u) == /\ Quantile(m, l, Tails(a)[1]) /\ Quantile(m, u, Tails(a)[2])
                            /\ QNear(c, QDiv(QAdd(l, u), "2"), "1e-9", QMul("1e-9", m.width))
MaxCentral(m, a, l, c, u) == /\ Quantile(m, l, Tails(a)[1]) /\ Quantile(m, u, Tails(a)[2]) /\ Peak(m, c)

(* The interval around the peak whose ends have the same density.          *)
LevelEnds(m, l, u) ==
  LET r == QMul("3/2", m.h)
      top == Highest(m, m.lo, m.hi)
      t == QAdd(QMul(m.dtol, top), m.dabs)
      hiAt(x) == Highest(m, QSub(x, r), QAdd(x, r))
      loAt(x) == Lowest(m, QSub(x, r), QAdd(x, r))
      atLo == QLe(l, QAdd(m.lo, m.slop))   \* the interval runs into the end of the data
      atHi == QLe(QSub(m.hi, m.slop), u)
  IN /\ (QLe(loAt(l), QAdd(hiAt(u), t)) \/ atLo)
     /\ (QLe(loAt(u), QAdd(hiAt(l), t)) \/ atHi)
     /\ QLe(QMin(loAt(l), loAt(u)), QAdd(Lowest(m, l, u), t))
MaxBound(m, a, l, c, u) == Holds(m, l, u, a, "0.0031") /\ (m.smoothed => LevelEnds(m, l, u))

(* Narrowest interval holding at least a, its centre halving that mass.    *)
HDIBound(m, a, l, c, u) ==
  /\ QLe(a, QAdd(Mass(m, QSub(l, m.slop), QAdd(u, m.slop)), m.eps))
  /\ QLe(Window(m, QSub(QSub(u, l), QMul("2", m.slop))), QAdd(a, QAdd(m.eps, "1/500")))
  /\ LET in == Mass(m, l, u) IN
     /\ QLe(Mass(m, QAdd(l, m.slop), QSub(c, m.slop)), QAdd(QMul("1/2", Mass(m, QSub(l, m.slop), QAdd(u, m.slop))), m.eps))
     /\ QLe(Mass(m, QAdd(c, m.slop), QSub(u, m.slop)), QAdd(QMul("1/2", Mass(m, QSub(l, m.slop), QAdd(u, m.slop))), m.eps))
=============================================================================
