------------------------------ MODULE JPanels --------------------------------
(* in: kind, cols (<<>> for all), wrap, chains (with data [p |-> [xs, ws,   *)
(* kind]], rel, sums [p |-> <<>> or <<lower, centre, upper>>]), labels,     *)
(* text, errorbar, extents [p |-> <<>> or <<lo, hi>>];  out: ok, shape,     *)
(* panels [at, on, title, xlabel, xlim, ylim, names [s, rgb], curves [rgb,  *)
(* form, edges, heights, pts (x, area left of it), area, top], bars [rgb,   *)
(* v]].                                                                     *)
EXTENDS Panels, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Tiny(d) == QMul("1e-9", QAdd("1", QMax(QAbs(QMaxSeq(d.xs)), QAbs(QMinSeq(d.xs)))))
IsBars(d, v, rel) ==
  LET n == Len(v.edges)  all == QSum(d.ws)  t == Tiny(d) IN
  /\ v.form = "step" /\ n > 2
  /\ \A k \in 1..(n - 1) :
       LET m == QMul(QDiv(v.heights[k], rel), QMul(QSub(v.edges[k + 1], v.edges[k]), QMass(d.xs, d.ws, v.edges[1], v.edges[n])))
           lo == QMass(d.xs, d.ws, QAdd(v.edges[k], t), QSub(v.edges[k + 1], t))
           hi == QMass(d.xs, d.ws, QSub(v.edges[k], t), QAdd(v.edges[k + 1], t))
       IN QLe(QMul("0.999", lo), QAdd(m, "1e-9")) /\ QLe(m, QAdd(QMul("1.001", hi), "1e-9"))
IsLine(d, v, rel) ==
  /\ v.form = "line"
  /\ QNear(v.area, rel, "1/20", "0")
  /\ \A k \in DOMAIN v.pts : QNear(QDiv(v.pts[k][2], v.area), QDiv(QMass(d.xs, d.ws, QSub(QMinSeq(d.xs), "1"), v.pts[k][1]), QSum(d.ws)), "0", "1/8")
Is(c, p, v) == IF c.data[p].kind = "step" THEN IsBars(c.data[p], v, c.rel) ELSE IsLine(c.data[p], v, c.rel)
Inside(d, lim, share) == QLe(QMul(share, QSum(d.ws)), QMass(d.xs, d.ws, lim[1], lim[2]))
Clauses(s, e) ==
  LET i == e.in  o == e.out  cs == i.chains
      cols == TLCEval(IF i.cols = <<>> THEN Default(cs) ELSE i.cols)
      sh == TLCEval(Shape(i.kind, cs, cols, i.wrap))
      P == o.panels
      shaped == o.ok /\ o.shape = sh /\ Len(P) = sh[1] * sh[2]
      Par(x) == Param(i.kind, cols, i.wrap, x.at[1], x.at[2])
      Sh(x) == Shown(i.kind, cs, cols, i.wrap, x.at[1], x.at[2])
      real == TLCEval({k \in DOMAIN P : shaped /\ Par(P[k]) # "-"})
      dens == i.kind = "distributions" \/ ~i.errorbar
      Lab(p) == i.labels[p]
      Twins(p) == {k \in real : Par(P[k]) = p}
      Tops(p) == UNION {{P[k].curves[m].top : m \in DOMAIN P[k].curves} : k \in Twins(p)}
      matched == shaped /\ dens /\ \A k \in real : Len(P[k].curves) = Len(Sh(P[k]))
      Sums(x) == SelectSeq(Sh(x), LAMBDA k : cs[k].sums[Par(x)] # <<>>)
      barred == shaped /\ ~dens /\ \A k \in real : Len(P[k].bars) = Len(Sums(P[k]))
  IN <<Ob("drawn", o.ok),
       Cl("a-panel-per-parameter-or-row-per-chain", o.ok, o.shape = sh /\ Len(P) = sh[1] * sh[2]),
       Cl("unused-panels-blank", shaped, \A k \in DOMAIN P \ real : ~P[k].on /\ P[k].curves = <<>> /\ P[k].bars = <<>> /\ (i.kind = "summary" => P[k].title = "")),
       Cl("panels-shown", shaped, \A k \in real : P[k].on),
       Cl("labelled", shaped, \A k \in real : IF i.kind = "summary" THEN P[k].title = (IF P[k].at[1] = 1 THEN Lab(Par(P[k])) ELSE "") ELSE P[k].xlabel = Lab(Par(P[k]))),
       Cl("rows-start-with-the-name", shaped /\ i.kind = "summary", \A k \in DOMAIN P \ real :
            Len(P[k].names) = 1 /\ P[k].names[1].s = cs[P[k].at[1]].name /\ P[k].names[1].rgb = (IF i.text THEN cs[P[k].at[1]].rgb ELSE <<0, 0, 0>>)),
       Cl("the-right-number-of-curves", shaped /\ dens, \A k \in real : Len(P[k].curves) = Len(Sh(P[k]))),
       Cl("in-the-chains-colours", matched, \A k \in real : \A m \in DOMAIN P[k].curves : P[k].curves[m].rgb = cs[Sh(P[k])[m]].rgb),
       Cl("each-its-own-marginal", matched, \A k \in real : \A m \in DOMAIN P[k].curves : Is(cs[Sh(P[k])[m]], Par(P[k]), P[k].curves[m])),
       Cl("no-curves-with-error-bars", shaped /\ ~dens, \A k \in real : P[k].curves = <<>>),
       Cl("no-error-bars-with-curves", shaped /\ dens, \A k \in real : P[k].bars = <<>>),
       Cl("an-error-bar-where-there-is-a-summary", shaped /\ ~dens, \A k \in real : Len(P[k].bars) = Len(Sums(P[k]))),
       Cl("error-bar-is-the-summary", barred, \A k \in real : \A m \in DOMAIN P[k].bars :
            LET c == cs[Sums(P[k])[m]]  v == c.sums[Par(P[k])]  b == P[k].bars[m] IN
            /\ b.rgb = c.rgb
            /\ \A z \in 1..3 : QNear(b.v[z], v[z], "1e-9", QMul("1e-9", QAbs(v[2])))),
       Cl("one-range-per-parameter", shaped, \A k, m \in real : Par(P[k]) = Par(P[m]) => QEq(P[k].xlim[1], P[m].xlim[1]) /\ QEq(P[k].xlim[2], P[m].xlim[2])),
       Cl("the-range-asked-for", shaped, \A k \in real : i.extents[Par(P[k])] # <<>> => QEq(P[k].xlim[1], i.extents[Par(P[k])][1]) /\ QEq(P[k].xlim[2], i.extents[Par(P[k])][2])),
       Cl("range-shows-the-samples", shaped, \A k \in real : i.extents[Par(P[k])] = <<>> => \A m \in DOMAIN Sh(P[k]) :
            Inside(cs[Sh(P[k])[m]].data[Par(P[k])], P[k].xlim, IF dens THEN "0.95" ELSE "0.8")),
       Cl("one-height-per-parameter", shaped /\ dens, \A k, m \in real : Par(P[k]) = Par(P[m]) => QEq(P[k].ylim[1], P[m].ylim[1]) /\ QEq(P[k].ylim[2], P[m].ylim[2])),
       Cl("height-fits-the-tallest", shaped /\ dens, \A k \in real : LET t == Tops(Par(P[k])) IN t # {} =>
            /\ QEq(P[k].ylim[1], "0")
            /\ \A x \in t : QLt(x, P[k].ylim[2])
            /\ \E x \in t : QLe(P[k].ylim[2], QMul("3/2", x)))>>
=============================================================================
