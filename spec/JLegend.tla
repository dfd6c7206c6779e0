------------------------------- MODULE JLegend -------------------------------
(***************************************************************************)
(* Event "legend".  in: lay, chains, cfg, labels ({column: label}), user   *)
(* (options given: [what, value] pairs); out: ok, legends: [at, names,     *)
(* handles [rgb, ls, lw, dot, marker], texts (rgb), got (options)], bars:  *)
(* [label, lo, hi], clouds: [rgb of its chain or color column, lo, hi].    *)
(***************************************************************************)
EXTENDS Legend, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
ToSet(c) == [c EXCEPT !.params = Range(c.params)]
Clauses(s, e) ==
  LET i == e.in  o == e.out  lay == i.lay
      cs == TLCEval([k \in DOMAIN i.chains |-> ToSet(i.chains[k])])
      want == Shown(cs, i.cfg)
      es == Entries(cs)
      one == o.ok /\ want /\ Len(o.legends) = 1
      l == o.legends[1]
      bars == Bars(lay, cs)
      LabelOf(b) == LET x == i.labels[b] IN IF x = "weight" THEN "Weights" ELSE x
      right == o.ok /\ {o.bars[k].label : k \in DOMAIN o.bars} = {LabelOf(b) : b \in bars} /\ Len(o.bars) = Cardinality(bars)
      BarOf(b) == o.bars[CHOOSE k \in DOMAIN o.bars : o.bars[k].label = LabelOf(b)]
  IN <<Ob("drawn", o.ok),
       Cl("legend-when-configured", o.ok, Len(o.legends) = (IF want THEN 1 ELSE 0)),
       Cl("in-its-panel", one, l.at = Place(lay, i.cfg)),
       Cl("exactly-the-labelled-chains-in-order", one, l.names = [k \in DOMAIN es |-> es[k].name]),
       Cl("in-their-own-style", one /\ Len(l.handles) = Len(es), \A k \in DOMAIN es : EntryOk(es[k], l.handles[k])),
       Cl("coloured-text-when-configured", one /\ Len(l.texts) = Len(es), \A k \in DOMAIN es : IF i.cfg.text THEN l.texts[k] = es[k].rgb ELSE l.texts[k] = <<0, 0, 0>>),
       Cl("options-passed-on", one, \A k \in DOMAIN i.user : l.got[k] = i.user[k]),
       Cl("a-bar-per-colour-parameter", o.ok, right),
       Cl("bar-covers-the-values", right, \A b \in bars : \A k \in Users(lay, cs, b) : QLe(BarOf(b).lo, cs[k].lo) /\ QLe(cs[k].hi, BarOf(b).hi)),
       Cl("bar-reads-right-for-every-cloud", right, \A k \in DOMAIN o.clouds : o.clouds[k].color \in bars =>
            QEq(o.clouds[k].lo, BarOf(o.clouds[k].color).lo) /\ QEq(o.clouds[k].hi, BarOf(o.clouds[k].color).hi))>>
=============================================================================
