------------------------------ MODULE JTriangle -----------------------------
(***************************************************************************)
(* Event "triangle": a figure of plot().  in: d, log, fixed (sequence of   *)
(* [p, lo, hi]), labels (sequence of [p, t]), chains (sequence of [have,   *)
(* contour, cloud, point]).  out.cells: sequence of cells [r, c, on, x, y, *)
(* xs, ys, xl, yl, xt, yt, cont, cloud, point, curve], the last four being *)
(* sequences of chain numbers.                                             *)
(***************************************************************************)
EXTENDS Triangle, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
In(x, q) == \E i \in DOMAIN q : q[i] = x
Label(e, p) == LET s == SelectSeq(e.in.labels, LAMBDA v : v[1] = p) IN IF p = "-" THEN "" ELSE IF s = <<>> THEN p ELSE s[1][2]
ScaleOf(e, p) == IF p # "-" /\ In(p, e.in.log) THEN "log" ELSE "linear"
Who(e, ps, f(_)) == {i \in DOMAIN e.in.chains : f(e.in.chains[i]) /\ \A p \in ps : In(p, e.in.chains[i].have)}
(* Every view of a parameter spans the same limits.                        *)
Lims(e, p) == {<<x.x[1].v, x.x[2].v>> : x \in {y \in Range(e.out.cells) : Hor(e.in.d, y.r, y.c) = p}}
              \cup {<<x.y[1].v, x.y[2].v>> : x \in {y \in Range(e.out.cells) : Ver(e.in.d, y.r, y.c) = p}}
Reads(t, lim) == QNum(t.v) /\ QNear(t.v, t.at, "1e-3", QMul("0.004", QAbs(QSub(lim[2].v, lim[1].v))))
Clauses(s, e) ==
  LET d == e.in.d  o == e.out  cs == o.cells
      shape == o.ok /\ Len(cs) = Size(d) * Size(d) /\ {<<x.r, x.c>> : x \in Range(cs)} = Places(d)
      All(P(_)) == \A i \in DOMAIN cs : P(cs[i])
      K(x) == Kind(d, x.r, x.c)
  IN <<Ob("figure-given", o.ok),
       Cl("grid", o.ok, shape),
       Cl("nothing-above-the-diagonal", shape, All(LAMBDA x : K(x) = "blank" =>
            ~x.on /\ x.xt = <<>> /\ x.yt = <<>> /\ x.cont = <<>> /\ x.cloud = <<>> /\ x.point = <<>> /\ x.curve = <<>>)),
       Cl("panels-have-frames", shape, All(LAMBDA x : K(x) # "blank" => x.on)),
       Cl("horizontal-scale", shape, All(LAMBDA x : K(x) # "blank" => x.xs = ScaleOf(e, Hor(d, x.r, x.c)))),
       Cl("vertical-scale", shape, All(LAMBDA x : K(x) # "blank" => x.ys = ScaleOf(e, Ver(d, x.r, x.c)))),
       Cl("one-extent-per-parameter", shape, \A i \in DOMAIN d.cols : Cardinality(Lims(e, d.cols[i])) <= 1),
       Cl("explicit-extents", shape /\ e.in.fixed # <<>>, \A i \in DOMAIN e.in.fixed : LET f == e.in.fixed[i] IN
            \A l \in Lims(e, f[1]) : QEq(l[1], f[2]) /\ QEq(l[2], f[3])),
       Cl("horizontal-labels", shape, All(LAMBDA x : K(x) # "blank" => x.xl = Label(e, ShownX(d, x.r, x.c)))),
       Cl("vertical-labels", shape, All(LAMBDA x : K(x) # "blank" => x.yl = Label(e, ShownY(d, x.r, x.c)))),
       Cl("inner-axes-bare", shape, All(LAMBDA x : K(x) # "blank" => (ShownX(d, x.r, x.c) = "-" => x.xt = <<>>) /\ (ShownY(d, x.r, x.c) = "-" => x.yt = <<>>))),
       Cl("outer-axes-ticked", shape, All(LAMBDA x : K(x) # "blank" =>
            (ShownX(d, x.r, x.c) # "-" /\ x.xs = "linear" => x.xt # <<>>) /\ (ShownY(d, x.r, x.c) # "-" /\ x.ys = "linear" => x.yt # <<>>))),
       Cl("ticks-read-true", shape, All(LAMBDA x : (\A i \in DOMAIN x.xt : Reads(x.xt[i], x.x)) /\ (\A i \in DOMAIN x.yt : Reads(x.yt[i], x.y)))),
       Cl("contours-of-the-chains-having-both", shape, All(LAMBDA x : K(x) = "joint" =>
            NoDup(x.cont) /\ Range(x.cont) = Who(e, Params(d, x.r, x.c), LAMBDA c : c.contour))),
       Cl("clouds-of-the-chains-having-both", shape, All(LAMBDA x : K(x) = "joint" =>
            NoDup(x.cloud) /\ Range(x.cloud) = Who(e, Params(d, x.r, x.c), LAMBDA c : c.cloud))),
       Cl("points-of-the-chains-having-both", shape, All(LAMBDA x : K(x) = "joint" =>
            NoDup(x.point) /\ Range(x.point) = Who(e, Params(d, x.r, x.c), LAMBDA c : c.point))),
       Cl("marginals-of-the-chains-having-it", shape, All(LAMBDA x : K(x) \in {"marginal", "flipped"} =>
            NoDup(x.curve) /\ Range(x.curve) = Who(e, Params(d, x.r, x.c), LAMBDA c : c.contour))),
       Cl("no-curves-in-joint-panels", shape, All(LAMBDA x : (K(x) = "joint" => x.curve = <<>>) /\
            (K(x) \in {"marginal", "flipped"} => x.cont = <<>> /\ x.cloud = <<>> /\ x.point = <<>>)))>>
=============================================================================
