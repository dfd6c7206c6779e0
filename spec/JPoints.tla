------------------------------- MODULE JPoints ------------------------------
(* Events: "best" - the max posterior of every chain; "plot" - the points   *)
(* of a triangle figure.                                                    *)
EXTENDS Points, Triangle, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s

Right(c, r) == IF c.lps = <<>> THEN ~r.has
               ELSE /\ r.has /\ Range(r.names) = Range(c.have) /\ NoDup(r.names)
                    /\ IsNum(r.lp) /\ \A k \in DOMAIN r.at : IsNum(r.at[k])
                    /\ IsBest(c, r.lp.v, [k \in DOMAIN c.have |-> r.at[Index(c.have[k], r.names)].v])
Best(e) == LET cs == e.in.chains  o == e.out IN
  <<Ob("max-posterior-is-the-best-row", \A i \in DOMAIN cs : Right(cs[i], o.own[i])),
    Ob("max-posteriors-of-all", o.all.ok /\ \A i \in DOMAIN cs : Right(cs[i], o.all.v[i])),
    Ob("only-chains-with-posteriors-listed", o.all.ok /\ o.names = [k \in DOMAIN SelectSeq(cs, LAMBDA c : c.lps # <<>>) |-> SelectSeq(cs, LAMBDA c : c.lps # <<>>)[k].name])>>

(* The dots of chain k seen in a cell.                                      *)
Of(x, k) == SelectSeq(x.dots, LAMBDA t : t.who = k)
Plot(e) == LET d == e.in.d  cs == e.in.chains  o == e.out  g == o.cells
               J == {i \in DOMAIN g : Kind(d, g[i].r, g[i].c) = "joint"}
               All(P(_, _, _)) == \A i \in J : \A k \in DOMAIN cs : P(g[i], k, Dots(cs[k], Hor(d, g[i].r, g[i].c), Ver(d, g[i].r, g[i].c)))
  IN <<Ob("figure-given", o.ok),
       Cl("every-pair-has-its-panel", o.ok, \A a, b \in DOMAIN d.cols : a < b => \E i \in J : Hor(d, g[i].r, g[i].c) = d.cols[a] /\ Ver(d, g[i].r, g[i].c) = d.cols[b]),
       Cl("drawn-once-where-both-parameters", o.ok, All(LAMBDA x, k, w : Len(Of(x, k)) = IF w = {} THEN 0 ELSE 1)),
       Cl("exactly-at-the-best-row", o.ok, All(LAMBDA x, k, w : \A t \in Range(Of(x, k)) : \E z \in w : IsNum(t.x) /\ IsNum(t.y) /\ QEq(t.x.v, z[1]) /\ QEq(t.y.v, z[2]))),
       Cl("own-style", o.ok, All(LAMBDA x, k, w : \A t \in Range(Of(x, k)) : InSeq(cs[k].style, t.style))),
       Cl("own-size", o.ok, All(LAMBDA x, k, w : \A t \in Range(Of(x, k)) : QEq(t.size, cs[k].size))),
       Cl("own-transparency", o.ok, All(LAMBDA x, k, w : \A t \in Range(Of(x, k)) : QNear(t.alpha, cs[k].alpha, "1e-9", "0"))),
       Cl("own-colour", o.ok, All(LAMBDA x, k, w : \A t \in Range(Of(x, k)) : cs[k].contour \/ t.color = cs[k].color)),
       Cl("nothing-else-in-marginals", o.ok, \A i \in DOMAIN g \ J : g[i].dots = <<>>)>>
Clauses(s, e) == IF e.op = "best" THEN Best(e) ELSE Plot(e)
=============================================================================
