------------------------------ MODULE JMoments ------------------------------
(* Events: "cov", "corr": one matrix, asked for the columns in.want.        *)
EXTENDS Moments, Roles, Clause, TraceRun
Start(tr) == [m |-> <<>>]
Values(e) == [i \in DOMAIN e.in.data |-> e.in.data[i]]
Want(e) == IF e.in.all THEN Params(e.in.roles) ELSE e.in.want
Pos(e, n) == CHOOSE k \in DOMAIN e.in.names : e.in.names[k] = n
Expect(e) == CovM([i \in DOMAIN Want(e) |-> e.in.data[Pos(e, Want(e)[i])]], e.in.ws)
Step(s, e) == s
Clauses(s, e) ==
  LET o == e.out  w == Want(e)  n == Len(w)
      cov == TLCEval(Expect(e))  sg == Sigmas(cov)
      shape == o.ok /\ Len(o.m) = n /\ \A i \in DOMAIN o.m : Len(o.m[i]) = n
      cells(i, j) == o.m[i][j]
      nums == shape /\ \A i, j \in 1..n : IsNum(cells(i, j))
      k == e.op
      want(i, j) == IF k = "cov" THEN cov[i][j] ELSE QDiv(cov[i][j], QMul(sg[i], sg[j]))
      tol(i, j) == IF k = "cov" THEN QMul("1e-8", QMul(sg[i], sg[j])) ELSE "1e-8"
  IN <<Ob(k \o "-given", o.ok),
       Cl(k \o "-columns", o.ok, o.names = w),
       Cl(k \o "-square", o.ok, shape),
       Cl(k \o "-numbers", shape, nums),
       Cl(k \o "-symmetric", nums, \A i, j \in 1..n : QNear(cells(i, j).v, cells(j, i).v, "1e-12", QMul("1e-4", tol(i, j)))),
       Cl(k \o "-diagonal", nums, \A i \in 1..n : IF k = "cov" THEN QLe("0", cells(i, i).v) ELSE QNear(cells(i, i).v, "1", "1e-12", "0")),
       Cl(k \o "-bounded", nums /\ k = "corr", \A i, j \in 1..n : QLe(QAbs(cells(i, j).v), "1.000000000001")),
       Cl(k \o "-weighted-estimate", nums, \A i, j \in 1..n : QNear(cells(i, j).v, want(i, j), "0", tol(i, j)))>>
=============================================================================
