------------------------------- MODULE JCurve -------------------------------
(***************************************************************************)
(* Event "curve": one marginal of one chain in a figure.  in: the fields   *)
(* of Marginal, power, rel, pad, scene, shaded (is shading on), b (summary *)
(* bands [lower, upper], empty without limits), title (the text of the     *)
(* summary).  out: form ("line" or "step"), from, to, least, area, pts     *)
(* ([x, y] of a line), edges and heights (of steps), spans ([from, to] of  *)
(* each shading), tops ([lo, y, hi]: the shading at some place between the *)
(* extremes of the curve around it), base, title.                          *)
(***************************************************************************)
EXTENDS Curve, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Share(d, o, i) == QDenMass(d.xs, d.ws, "0", o.edges[1], o.edges[Len(o.edges)], FALSE, o.edges[i], o.edges[i + 1])
(* The density over the range drawn, which may leave out extreme samples.   *)
Over2(d, m, o) ==
  IF d.grid \/ o.form # "line" THEN m
  ELSE LET h == QDiv(QSub(o.to, o.from), Cells(d) - 1) IN
       TLCEval([m EXCEPT !.lo = QSub(o.from, QMul("1/2", h)), !.hi = QAdd(o.to, QMul("1/2", h)), !.h = h, !.slop = QMul(IF d.smooth = 1 THEN "4" ELSE IF d.smooth = 2 THEN "7/2" ELSE "5/2", h),
                         !.sigma = IF d.kde # "none" THEN m.sigma ELSE QMul(h, QSqrt(QAdd(d.smooth * d.smooth, "1/4")))])
Between(d, x, y) == QDenMass(d.xs, d.ws, "0", QSub(QMinSeq(d.xs), "1"), QAdd(QMaxSeq(d.xs), "1"), FALSE, x, y)
Clauses(s, e) ==
  LET d == e.in  o == e.out
      m == Build(d, d.pad)
      mm == Over2(d, m, o)
      one == o.ok /\ o.found = 1
      line == one /\ o.form = "line"
      steps == one /\ o.form = "step"
      edge == QAdd(m.slop, QMul(m.width, "1/500"))
      tol == QMul("2", m.h)
      clip(x) == QMax(o.from, QMin(o.to, x))
      n == Len(o.edges)  a == QMinSeq(d.xs)  b == QMaxSeq(d.xs)  near == QDiv(QSub(b, a), 1500)
      \* weakly smoothed: the binning moves single samples by up to half a cell
      coarse == IF d.grid \/ d.kde # "none" \/ (d.smooth > 2 /\ Len(d.xs) >= 1000) THEN "1e-6" ELSE IF d.smooth > 2 THEN "1/50" ELSE IF d.smooth = 2 THEN "1/25" ELSE "1/10"
      peak == QMaxSeq([i \in DOMAIN o.pts |-> o.pts[i][2]])
  IN <<Ob("drawn", o.ok),
       Cl("one-curve-per-chain", o.ok, o.found = 1),
       Cl("curve-or-bars", one, o.form = IF d.smooth = 0 /\ d.kde = "none" THEN "step" ELSE "line"),
       Cl("not-negative", one, QLe("0", o.least)),
       \* all but the samples at the very ends of the range
       Cl("covers-the-data", one, QLe(QSub("1", Between(d, QSub(o.from, edge), QAdd(o.to, edge))), QAdd("2e-5", QSub("1", Between(d, QAdd(a, near), QSub(b, near)))))),
       Cl("no-wider-than-the-data", one, QLe(QSub(m.lo, edge), o.from) /\ QLe(o.to, QAdd(m.hi, edge))),
       Cl("density-of-the-samples", line, \A i \in DOMAIN o.pts : LET x == o.pts[i][1]  y == o.pts[i][2]  slack == QMul(peak, coarse) IN
            QLe(Under(mm, x, d.power, d.rel), QAdd(y, slack)) /\ QLe(y, QAdd(Over(mm, x, d.power, d.rel), slack))),
       Cl("area-is-the-relative-height", line /\ QEq(d.power, "1"), QNear(o.area, QMul(d.rel, IF d.kde # "none" THEN "1" ELSE Mass(mm, o.from, o.to)), "1/50", "0")),
       Cl("a-bar-per-grid-point", steps /\ d.grid, n - 1 = Cardinality(Values(d))),
       Cl("equal-cells", steps, \A i \in 1..(n - 1) : QNear(QSub(o.edges[i + 1], o.edges[i]), QDiv(QSub(o.edges[n], o.edges[1]), n - 1), "1e-6", "0")),
       Cl("bars-of-the-samples", steps, \A i \in 1..(n - 1) :
            QNear(o.heights[i], Bar(Share(d, o, i), QSub(o.edges[i + 1], o.edges[i]), d.power, d.rel), "1e-8", QMul(o.top, "1e-9"))),
       Cl("unshaded-when-off-or-without-limits", one /\ (~d.shaded \/ d.b = <<>>), o.spans = <<>>),
       Cl("shaded-over-the-summary", one /\ d.shaded, Len(o.spans) = Len(d.b) /\ \A i \in DOMAIN d.b :
            QNear(o.spans[i][1], clip(d.b[i][1]), "1e-9", tol) /\ QNear(o.spans[i][2], clip(d.b[i][2]), "1e-9", tol)),
       Cl("shaded-under-the-curve", one /\ d.shaded, QEq(o.base, "0") /\ \A i \in DOMAIN o.tops :
            QLe(QMul(o.tops[i][1], "0.999"), o.tops[i][2]) /\ QLe(o.tops[i][2], QMul(o.tops[i][3], "1.001"))),
       Cl("titled-with-the-summary", o.ok /\ (d.alone => d.b # <<>>), o.title = IF Titled(d.scene) /\ d.b # <<>> THEN d.title ELSE d.else)>>
=============================================================================
