------------------------------- MODULE JTruths ------------------------------
(***************************************************************************)
(* Event "figure": in: kind, d (layout of Triangle), wrap, lead, truths;   *)
(* out.panels: sequence of [r, c, items].                                  *)
(***************************************************************************)
EXTENDS Truths, Triangle, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Sides(e, p) == IF e.in.kind = "triangle" THEN <<Hor(e.in.d, p.r, p.c), Ver(e.in.d, p.r, p.c)>>
               ELSE Axes(e.in.kind, e.in.d.cols, e.in.wrap, e.in.lead, p.r, p.c)
Count(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
Where(q) == [i \in DOMAIN q |-> <<q[i].k, q[i].x, q[i].y>>]
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a[i], a) = Count(a[i], b)
Clauses(s, e) ==
  LET o == e.out
      Want(p) == LET x == Sides(e, p) IN All(e.in.truths, x[1], x[2])
      On(P(_)) == \A i \in DOMAIN o.panels : P(o.panels[i])
      places == o.ok /\ On(LAMBDA p : SameBag(Where(p.items), Where(Want(p))))
  IN <<Ob(e.in.kind \o "-given", o.ok),
       Cl(e.in.kind \o "-truths-where-given", o.ok, places),
       Cl(e.in.kind \o "-truth-styles", places, On(LAMBDA p : SameBag(p.items, Want(p))))>>
=============================================================================
