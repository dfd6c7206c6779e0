-------------------------------- MODULE JKde ---------------------------------
(***************************************************************************)
(* Event "kde": an estimator evaluated at some points.  in: k (see Kde),   *)
(* at; out: v.  Event "curve": a marginal drawn with a bandwidth.  in: k,  *)
(* power; out: pts ([x, y]).                                               *)
(***************************************************************************)
EXTENDS Kde, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Shape(k, z, p, x) == QPow(Estimate(k, z, <<x>>), p)
KdeClauses(k, at, o, z) ==
  <<Ob("evaluated", o.ok),
    Cl("one-value-per-point", o.ok, Len(o.v) = Len(at)),
    Cl("not-negative", o.ok, \A i \in DOMAIN o.v : QLe("0", o.v[i])),
    Cl("the-estimate", o.ok /\ Len(o.v) = Len(at), \A i \in DOMAIN at : Clear(k, z, at[i]) => QNear(o.v[i], Estimate(k, z, at[i]), "1e-6", QMul(V1(k), "1e-14")))>>
CurveClauses(k, p, o, z) ==
  <<Ob("drawn", o.ok),
    Cl("bandwidth-of-the-chain", o.ok, \A i \in DOMAIN o.pts :
       QNear(QMul(o.pts[i][2], Shape(k, z, p, o.pts[1][1])), QMul(o.pts[1][2], Shape(k, z, p, o.pts[i][1])), "1/60", QMul(QMul(o.pts[1][2], Shape(k, z, p, o.pts[1][1])), "1/300")))>>
Clauses(s, e) == LET z == Ready(e.in.k) IN IF e.op = "kde" THEN KdeClauses(e.in.k, e.in.at, e.out, z) ELSE CurveClauses(e.in.k, e.in.power, e.out, z)
=============================================================================
