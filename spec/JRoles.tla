------------------------------- MODULE JRoles -------------------------------
EXTENDS Roles, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s

Keys(q) == [i \in DOMAIN q |-> q[i].name]
(* Panels: a sequence of [label, chains |-> indices (in the whole list) of the chains seen in it]. *)
PanelsOk(cs, want, panels) ==
  /\ Len(panels) = Len(want)
  /\ \A i \in DOMAIN want :
       panels[i].label = want[i] /\ Range(panels[i].chains) = {k \in Bearers(cs, want[i]) : cs[k].drawn}
Clauses(s, e) ==
  LET cs == e.in.chains  o == e.out
      asked == e.in.columns  \* <<>> for none
      tabcols == IF asked # <<>> THEN asked ELSE FirstSeen(Drawn(cs))
      sumcols == IF asked # <<>> THEN asked ELSE FirstSeen(cs)
      Mine(c, cols) == SelectSeq(cols, LAMBDA n : InSeq(n, Plotted(c)))
  IN <<Ob("parameters-of-a-chain", \A i \in DOMAIN cs : o.params[i] = Params(cs[i])),
       Ob("plotted-columns-of-a-chain", \A i \in DOMAIN cs : o.plotted[i] = Plotted(cs[i])),
       Ob("summary-keys", o.summary.ok /\ Len(o.summary.v) = Len(cs) /\ \A i \in DOMAIN cs : o.summary.v[i] = Mine(cs[i], sumcols)),
       Ob("max-posterior-keys", o.maxpost.ok /\ \A i \in DOMAIN cs :
            IF HasName(cs[i], cs[i].pcol) THEN Range(o.maxpost.v[i]) = Range(Plotted(cs[i])) /\ o.hasmax[i] ELSE ~o.hasmax[i]),
       Ob("covariance-columns", \A i \in DOMAIN cs : o.cov[i].asked => o.cov[i].ok /\ o.cov[i].cols = Params(cs[i])),
       Cl("table-header", o.table.done, o.table.ok /\ o.table.header = <<"Model">> \o tabcols),
       Cl("table-blank-where-absent", o.table.done, o.table.ok /\ Len(o.table.blank) = Len(Drawn(cs)) /\
            \A i \in DOMAIN Drawn(cs) : \A j \in DOMAIN tabcols :
               o.table.blank[i][j] = ~InSeq(tabcols[j], Plotted(Drawn(cs)[i]))),
       Cl("triangle-panels", o.tri.done, o.tri.ok /\ PanelsOk(cs, tabcols, o.tri.panels)),
       Cl("triangle-rows-match-columns", o.tri.done, o.tri.ok /\ Keys(o.tri.rows) = Tail(tabcols)),
       Cl("walk-panels", o.walk.done, o.walk.ok /\ PanelsOk(cs, tabcols, o.walk.panels)),
       Cl("distribution-panels", o.dist.done, o.dist.ok /\ PanelsOk(cs, tabcols, o.dist.panels)),
       Cl("summary-plot-panels", o.summ.done, o.summ.ok /\ PanelsOk(cs, tabcols, o.summ.panels))>>
=============================================================================
