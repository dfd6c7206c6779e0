----------------------------- MODULE JMultimodal ----------------------------
(* One event: the summary of one parameter and how it is shown.            *)
EXTENDS Multimodal, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Clear(m, b) == \* modes far apart compared with all tolerances
  \A i \in DOMAIN b : i > 1 => QLt(Lowest(m, b[i - 1].u, b[i].l), QSub(LowestIn(m, b), Tol(m)))
Clauses(s, e) ==
  LET d == e.in  o == e.out
      m == Build(d, TRUE)
      ok == o.ok /\ \A i \in DOMAIN o.b : \A j \in 1..3 : IsNum(o.b[i][j])
      b == [i \in DOMAIN o.b |-> [l |-> o.b[i][1].v, c |-> o.b[i][2].v, u |-> o.b[i][3].v]]
      many == ok /\ o.k = "bands"
      one == ok /\ o.k = "one"
      tol == QMul("2", m.h)
      p == o.fig.v
      drawn == ok /\ o.fig.done /\ o.fig.ok
      clip(x) == QMax(p.from.v, QMin(p.to.v, x))
  IN <<Ob("summarised", ok /\ Len(o.b) >= 1),
       Cl("bands-only-when-multimodal", ~d.multimodal, o.k = "one"),
       Cl("at-least-two-bands", many, Len(b) >= 2),
       Cl("in-order-and-disjoint", many, Ordered(b)),
       Cl("same-density-at-all-ends", many, OneLevel(m, b)),
       Cl("denser-inside-than-outside", many, Separated(m, b)),
       Cl("hold-the-area-together", many, Together(m, b, d.area)),
       Cl("centres-at-the-peaks", many, Centres(m, b)),
       Cl("one-band-is-the-hdi", one /\ d.hdi, HDIBound(m, d.area, b[1].l, b[1].c, b[1].u)),
       Cl("one-band-only-without-gaps", one /\ d.multimodal, OneBand(m, b[1].l, b[1].u)),
       Cl("drawn", ok /\ o.fig.done, o.fig.ok),
       Cl("every-band-shaded", drawn, /\ Len(p.spans) = Len(b)
            /\ \A i \in DOMAIN b : /\ Near(p.spans[i][1], [k |-> "num", v |-> clip(b[i].l)], "1e-9", tol)
                                   /\ Near(p.spans[i][2], [k |-> "num", v |-> clip(b[i].u)], "1e-9", tol)),
       Cl("title-is-the-summary", drawn, p.title = o.text),
       Cl("titled-band-by-band", drawn /\ many, \A i \in DOMAIN b : SIn("I" \o ToString(i) \o ": $", p.title)),
       Cl("table-cell-is-the-summary", ok, o.cell = o.plain)>>
=============================================================================
