------------------------------ MODULE JWeights ------------------------------
EXTENDS Relate, TraceRun
W == INSTANCE Weights

Id == [a |-> "1", b |-> "0"]
Start(tr) == [base |-> "none"]
Step(s, e) == IF e.op = "base" THEN [base |-> e] ELSE s

Span(o, p) == QSub(o.fig.v.ext[p][2].v, o.fig.v.ext[p][1].v)
Clauses(s, e) ==
  IF e.op = "base" THEN <<Ob("base-observed", e.out.summary.ok /\ e.out.cov.ok /\ e.out.fig.ok /\ e.out.dic.ok)>>
  ELSE
  LET o == e.out  u == s.base.out  tol == e.in.tol
      P == DOMAIN u.names
      d == [p \in P |-> QMul(tol, Span(u, p))]
      rep == e.in.repeated  \* the list has been unfolded or split, not only scaled and reordered
  IN <<Ob("driver-kept-shares", W!SameShares(e.in.rows, s.base.in.rows, {e.in.rows[i].id : i \in DOMAIN e.in.rows})),
       Ob("summaries-depend-on-shares-only", o.summary.ok /\ \A p \in P : SummaryAt(o.summary.v[p], u.summary.v[p], Id, d[p])),
       Ob("extents-depend-on-shares-only", o.fig.ok /\ \A p \in P : ExtentAt(o.fig.v.ext[p], u.fig.v.ext[p], Id, d[p])),
       Ob("curves-depend-on-shares-only", o.fig.ok /\ \A p \in P : CurveAt(o.fig.v.curves[p], u.fig.v.curves[p], Id, "1", d[p], e.in.ctol, e.in.habs)),
       Ob("stand-alone-curves-depend-on-shares-only", o.fig.ok /\ \A p \in P : CurveAt(o.fig.v.dists[p], u.fig.v.dists[p], Id, "1", d[p], e.in.ctol, e.in.habs)),
       Ob("contours-depend-on-shares-only", o.fig.ok /\ Len(o.fig.v.boxes[1]) = Len(u.fig.v.boxes[1]) /\
            \A l \in DOMAIN u.fig.v.boxes[1] : BoxAt(o.fig.v.boxes[1][l], u.fig.v.boxes[1][l], Id, Id, d[1], d[2])),
       Cl("covariance-depends-on-shares-only", ~rep, o.cov.ok /\ \A p \in P : \A r \in P :
            Close(o.cov.v[p][r], u.cov.v[p][r], "1", "1e-9", QMul("1e-12", QMul(Span(u, p), Span(u, r))))),
       Ob("max-posterior-depends-on-shares-only", o.maxpost.has = u.maxpost.has /\ Same(o.maxpost.lp, u.maxpost.lp) /\
            \A p \in DOMAIN u.maxpost.at : Same(o.maxpost.at[p], u.maxpost.at[p])),
       Ob("criteria-depend-on-shares-only", o.aic.ok /\ o.bic.ok /\ o.dic.ok /\ Close(o.aic.v, u.aic.v, "1", "0", "1e-8")
            /\ Close(o.bic.v, u.bic.v, "1", "0", "1e-8") /\ Close(o.dic.v, u.dic.v, "1", "0", "1e-8"))>>
=============================================================================
