------------------------------ MODULE JCriteria -----------------------------
(* Events: "crit" - aic(), bic() or dic(); "table" - the comparison table.  *)
EXTENDS Criteria, TraceRun
Start(tr) == "none"
Step(s, e) == s

Crit(e) ==
  LET o == e.out  w == With(e.in.cs, e.in.crit) names == [i \in DOMAIN w |-> w[i].name]
      shape == o.ok /\ o.names = names /\ \A i \in DOMAIN o.vals : IsNum(o.vals[i])
      got == [i \in DOMAIN names |-> o.vals[i].v]
  IN <<Ob(e.in.crit \o "-given", o.ok),
       Cl(e.in.crit \o "-exactly-the-chains-with-inputs", o.ok, o.names = names),
       Cl(e.in.crit \o "-values-are-numbers", o.ok, \A i \in DOMAIN o.vals : IsNum(o.vals[i])),
       Cl(e.in.crit \o "-smallest-is-zero", shape /\ names # <<>>, QEq(QMinSeq(got), "0")),
       Cl(e.in.crit \o "-follows-the-formula", shape, Explains([i \in DOMAIN w |-> Values(w[i], e.in.crit)], names, got, "1e-9"))>>

(* in.vals[crit] = <<names, values>> as reported by aic(), bic(), dic().     *)
ValueOf(e, cr, n) == LET s == SelectSeq(e.in.vals, LAMBDA v : v.crit = cr /\ v.name = n) IN IF s = <<>> THEN "none" ELSE s[1].v
Cell(e, c, v) == IF v = "none" THEN ~QNum(c.t) ELSE QNum(c.t) /\ c.dec = 1 /\ QNear(c.t, v, "1e-12", "0.0500001")
Table(e) ==
  LET o == e.out  cr == e.in.crits
      want == [i \in DOMAIN Listed(e.in.cs, cr) |-> Listed(e.in.cs, cr)[i].name]
      shape == o.ok /\ \A r \in DOMAIN o.rows : Len(o.rows[r].cells) = Len(cr)
      hasv == SelectSeq(o.rows, LAMBDA r : ValueOf(e, e.in.sort, r.name) # "none")
  IN <<Ob("table-refused-or-given", o.ok = e.in.legal),
       Cl("table-header", o.ok, o.header = <<"Model">> \o [i \in DOMAIN cr |-> CASE cr[i] = "aic" -> "AIC" [] cr[i] = "bic" -> "BIC" [] OTHER -> "DIC"]),
       Cl("table-lists-each-chain-once", o.ok, NoDup([r \in DOMAIN o.rows |-> o.rows[r].name]) /\ {o.rows[r].name : r \in DOMAIN o.rows} = Range(want)),
       Cl("table-cells-match-specification", o.ok, o.colspec = Len(cr) + 1 /\ Len(o.header) = Len(cr) + 1 /\ shape),
       Cl("table-values-in-their-columns", shape, \A r \in DOMAIN o.rows : \A k \in DOMAIN cr :
             Cell(e, o.rows[r].cells[k], ValueOf(e, cr[k], o.rows[r].name))),
       Cl("table-order", shape, Ordered([i \in DOMAIN hasv |-> ValueOf(e, e.in.sort, hasv[i].name)], e.in.down)),
       Cl("table-caption", o.ok, o.caption = e.in.caption),
       Cl("table-label", o.ok, o.label = e.in.label),
       Cl("table-lines", o.ok, o.hlines = IF e.in.hlines THEN 3 ELSE 0)>>
Clauses(s, e) == IF e.op = "crit" THEN Crit(e) ELSE Table(e)
=============================================================================
