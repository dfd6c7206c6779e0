------------------------------- MODULE JUnits --------------------------------
(* in: op (an operation of Units), tol, ctol, habs, power;  out: an         *)
(* observation of the chain (py/observe.py).                                *)
EXTENDS Units, TraceRun
Start(tr) == [m |-> <<Id, Id>>, base |-> "none", extra |-> FALSE]
Step(s, e) == IF e.op = "base" THEN [s EXCEPT !.base = e]
              ELSE [s EXCEPT !.m = After(@, e.in.op), !.extra = @ \/ e.in.op.op = "extra"]
Span(o, p) == QSub(o.fig.v.ext[p][2].v, o.fig.v.ext[p][1].v)
Clauses(s, e) ==
  IF e.op = "base" THEN <<Ob("base-observed", e.out.summary.ok /\ e.out.cov.ok /\ e.out.fig.ok /\ e.out.dic.ok /\ e.out.corr.ok)>>
  ELSE
  LET o == e.out  u == s.base.out
      m == TLCEval(Step(s, e).m)
      P == DOMAIN u.names
      A(p) == QAbs(m[p].a)
      d == TLCEval([p \in P |-> QMul(e.in.tol, QMul(A(p), Span(u, p)))])
      h(p) == QPow(QDiv("1", A(p)), e.in.power)
      H(p) == IF e.in.power = "1" THEN QDiv("1", A(p)) ELSE h(p)
      ha(p) == QMul(e.in.habs, H(p))
      rev(c, p) == IF Pos(m[p]) THEN c ELSE [n |-> c.n, x |-> [k \in DOMAIN c.x |-> c.x[Len(c.x) + 1 - k]], y |-> [k \in DOMAIN c.y |-> c.y[Len(c.y) + 1 - k]]]
      straight == \A p \in P : Pos(m[p])
      sgn(p) == IF Pos(m[p]) THEN "1" ELSE "-1"
  IN <<Ob("summaries-follow", o.summary.ok /\ \A p \in P : SummaryAt(o.summary.v[p], u.summary.v[p], m[p], d[p])),
       Ob("extents-follow", o.fig.ok /\ \A p \in P : ExtentAt(o.fig.v.ext[p], u.fig.v.ext[p], m[p], d[p])),
       Cl("curves-follow", o.fig.ok, \A p \in P : Pos(m[p]) => CurveAt(o.fig.v.curves[p], u.fig.v.curves[p], m[p], H(p), d[p], e.in.ctol, ha(p))),
       Cl("stand-alone-curves-follow", o.fig.ok, \A p \in P : Pos(m[p]) => CurveAt(o.fig.v.dists[p], u.fig.v.dists[p], m[p], H(p), d[p], e.in.ctol, ha(p))),
       Cl("reflected-curves-follow", o.fig.ok /\ ~straight /\ e.in.smoothed, \A p \in P : ~Pos(m[p]) =>
            CurveAt(rev(o.fig.v.curves[p], p), u.fig.v.curves[p], m[p], H(p), d[p], e.in.ctol, ha(p))),
       Cl("contours-follow", o.fig.ok, Len(o.fig.v.boxes[1]) = Len(u.fig.v.boxes[1]) /\
            \A l \in DOMAIN u.fig.v.boxes[1] : BoxAt(o.fig.v.boxes[1][l], u.fig.v.boxes[1][l], m[1], m[2], QMul(e.in.boxf, d[1]), QMul(e.in.boxf, d[2]))),
       Ob("covariance-follows", o.cov.ok /\ \A p \in P : \A r \in P :
            Close(o.cov.v[p][r], u.cov.v[p][r], QMul(m[p].a, m[r].a), "1e-7", QMul("1e-9", QMul(QMul(A(p), Span(u, p)), QMul(A(r), Span(u, r)))))),
       Ob("correlations-stay", o.corr.ok /\ \A p \in P : \A r \in P : Close(o.corr.v[p][r], u.corr.v[p][r], QMul(sgn(p), sgn(r)), "1e-7", "1e-9")),
       Ob("max-posterior-follows", o.maxpost.has = u.maxpost.has /\ Same(o.maxpost.lp, u.maxpost.lp) /\
            \A p \in DOMAIN u.maxpost.at : At(o.maxpost.at[p], u.maxpost.at[p], m[p], d[p])),
       Ob("criteria-stay", o.aic.ok /\ o.bic.ok /\ Close(o.aic.v, u.aic.v, "1", "0", "1e-8") /\ Close(o.bic.v, u.bic.v, "1", "0", "1e-8")),
       Cl("effective-parameters-stay", Uniform(m) /\ ~s.extra /\ e.in.op.op # "extra", o.dic.ok /\ Close(o.dic.v, u.dic.v, "1", "1e-7", "1e-6")),
       Cl("diagnostics-stay", ~s.extra /\ e.in.op.op \notin {"extra", "chain"} /\ u.diag.ok, o.diag.ok /\ o.diag.v = u.diag.v)>>
=============================================================================
