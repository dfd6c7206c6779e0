------------------------------ MODULE JSummary ------------------------------
(* One event: the summary of one parameter of one chain.                   *)
EXTENDS Summary, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s

Clauses(s, e) ==
  LET d == e.in  o == e.out
      pad == d.stat = "hdi"
      m == Build(d, pad)
      got == o.ok /\ o.k = "one"
      all == got /\ \A i \in 1..3 : IsNum(o.b[i])
      l == o.b[1].v  c == o.b[2].v  u == o.b[3].v
  IN <<Ob("summarised", got),
       Cl("has-bounds", d.clean, all),
       Cl("only-max-may-lack-bounds", got /\ d.stat # "max", all),
       Cl("has-centre", got, IsNum(o.b[2]) /\ (all \/ (~IsNum(o.b[1]) /\ ~IsNum(o.b[3])))),
       Cl("in-order", all, QLe(l, u) /\ (d.stat # "max_central" => QLe(l, c) /\ QLe(c, u))),
       Cl("within-padded-range", all, InRange(m, l) /\ InRange(m, c) /\ InRange(m, u)),
       Cl("cumulative", all /\ d.stat = "cumulative", Cumulative(m, d.area, l, c, u)),
       Cl("mean", all /\ d.stat = "mean", MeanBound(m, d.area, l, c, u)),
       Cl("max-central", all /\ d.stat = "max_central", MaxCentral(m, d.area, l, c, u)),
       Cl("max-peak", got /\ d.stat = "max", Peak(m, c)),
       Cl("max", all /\ d.stat = "max", MaxBound(m, d.area, l, c, u)),
       Cl("hdi", all /\ d.stat = "hdi", HDIBound(m, d.area, l, c, u))>>
=============================================================================
