------------------------------- MODULE Panels --------------------------------
(* The distribution plot and the summary plot: which marginal is drawn in   *)
(* which cell.  A chain is [name, rgb, contour, cloud, params (a sequence:  *)
(* its parameters in order)].                                               *)
EXTENDS Layout, Exact, Naturals, Sequences, FiniteSets

PSet(c) == {c.params[i] : i \in DOMAIN c.params}
(* Without a choice of parameters: all of them, as they first appear.       *)
RECURSIVE Merge(_, _)
Merge(acc, s) == IF s = <<>> THEN acc ELSE Merge(IF \E i \in DOMAIN acc : acc[i] = Head(s) THEN acc ELSE Append(acc, Head(s)), Tail(s))
RECURSIVE Default(_)
Default(cs) == IF cs = <<>> THEN <<>> ELSE LET n == Len(cs) IN Merge(Default(SubSeq(cs, 1, n - 1)), cs[n].params)

Ceil(a, b) == (a + b - 1) \div b
(* The number of rows and columns of panels.                                *)
Shape(kind, cs, cols, wrap) ==
  IF kind = "distributions" THEN <<Ceil(Len(cols), wrap), Wide(cols, wrap)>> ELSE <<Len(cs), 1 + Len(cols)>>
Param(kind, cols, wrap, r, c) == Axes(kind, cols, wrap, 1, r, c)[1]
(* The chains whose marginals the panel in row r, column c shows, in order. *)
Shown(kind, cs, cols, wrap, r, c) ==
  LET p == Param(kind, cols, wrap, r, c)
      Has(k) == p \in PSet(cs[k])
  IN IF p = "-" THEN <<>>
     ELSE IF kind = "distributions" THEN SelectSeq([k \in DOMAIN cs |-> k], LAMBDA k : Has(k) /\ cs[k].contour)
     ELSE IF Has(r) /\ (cs[r].contour \/ cs[r].cloud) THEN <<r>> ELSE <<>>
Name(kind, cs, r, c) == IF kind = "summary" /\ c = 1 THEN cs[r].name ELSE "-"
Blank(kind, cols, wrap, r, c) == Param(kind, cols, wrap, r, c) = "-"
=============================================================================
