----------------------------- MODULE JBlinding ------------------------------
(* One event: a figure drawn (1) blinded, (2) blinded with the data of the *)
(* blinded parameters moved, (3) not blinded; or the summary table thrice. *)
(* Each panel is recorded as [x, y, t, xt, yt, off]: title, tick texts and *)
(* offset texts, with texts the sequence of all other texts of the figure. *)
EXTENDS Blinding, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Fig(e) ==
  LET f == e.in.f  a == e.out.blinded  b == e.out.moved  c == e.out.open  ps == Figure(f)
      ok == a.ok /\ b.ok /\ c.ok
      shape == ok /\ Len(a.v.panels) = Len(ps) /\ Len(c.v.panels) = Len(ps)
  IN <<Ob("drawn", ok),
       Cl("panels", ok, shape),
       Cl("no-ticks-on-hidden-axes", shape, \A k \in DOMAIN ps : (Hidden(f, ps[k].x) => a.v.panels[k].xt = <<>>) /\ (Hidden(f, ps[k].y) => a.v.panels[k].yt = <<>>)),
       Cl("no-title-for-hidden", shape, \A k \in DOMAIN ps : Hidden(f, ps[k].t) => a.v.panels[k].title = ""),
       Cl("texts-do-not-depend-on-hidden-data", ok, a.v.texts = b.v.texts),
       Cl("open-axes-keep-their-ticks", shape, \A k \in DOMAIN ps : (MayTell(f, k).x => a.v.panels[k].xt = c.v.panels[k].xt)
                                                                 /\ (MayTell(f, k).y => a.v.panels[k].yt = c.v.panels[k].yt)),
       Cl("open-parameters-keep-their-titles", shape, \A k \in DOMAIN ps : MayTell(f, k).t => a.v.panels[k].title = c.v.panels[k].title)>>
Table(e) ==
  LET a == e.out.blinded  b == e.out.moved  c == e.out.open IN
  <<Ob("table-given", a.ok /\ b.ok /\ c.ok),
    Cl("hidden-absent-from-table", a.ok, \A i \in DOMAIN a.v.params : a.v.params[i] \notin Range(e.in.hidden)),
    Cl("open-present-in-table", a.ok /\ c.ok, a.v.params = SelectSeq(c.v.params, LAMBDA p : p \notin Range(e.in.hidden))),
    Cl("table-does-not-depend-on-hidden-data", a.ok /\ b.ok, a.v.text = b.v.text)>>
Clauses(s, e) == IF e.op = "figure" THEN Fig(e) ELSE Table(e)
=============================================================================
