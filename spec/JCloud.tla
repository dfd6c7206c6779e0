------------------------------- MODULE JCloud --------------------------------
(***************************************************************************)
(* Event "clouds".  in: lay, chains ([data {p: values}, colors (<<>>), k,  *)
(* rgb, cmap, n, cloud]); out: ok, panels: [r, c, clouds: [xs, ys, cs,     *)
(* rgb, cmap, z], top (lowest order of contours of each chain, by rgb)].   *)
(***************************************************************************)
EXTENDS Cloud, Layout, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Clauses(s, e) ==
  LET i == e.in  o == e.out
      joint == {k \in DOMAIN o.panels : Kind(i.lay, o.panels[k].r, o.panels[k].c) = "joint"}
      X(k) == Hor(i.lay, o.panels[k].r, o.panels[k].c)
      Y(k) == Ver(i.lay, o.panels[k].r, o.panels[k].c)
      Has(c, k) == X(k) \in DOMAIN c.data /\ Y(k) \in DOMAIN c.data
      Of(k) == SelectSeq(i.chains, LAMBDA c : c.cloud /\ Has(c, k))
      ok == o.ok /\ \A k \in joint : Len(o.panels[k].clouds) = Len(Of(k))
      each(P(_, _, _)) == \A k \in joint : LET cs == Of(k) IN \A j \in DOMAIN cs : P(k, cs[j], o.panels[k].clouds[j])
  IN <<Ob("drawn", o.ok),
       Cl("a-cloud-per-chain-having-both", o.ok, ok),
       Cl("nowhere-else", o.ok, \A k \in DOMAIN o.panels \ joint : o.panels[k].clouds = <<>>),
       Cl("every-so-many-th-sample-in-its-place", ok, each(LAMBDA k, c, z : \E t \in Strides(c.n, c.k) : Draws(z, c.data[X(k)], c.data[Y(k)], <<>>, t))),
       Cl("colour-of-its-own-row", ok, each(LAMBDA k, c, z : c.colors # <<>> => \E t \in Strides(c.n, c.k) : Draws(z, c.data[X(k)], c.data[Y(k)], c.colors, t))),
       Cl("on-the-map-of-the-chain", ok, each(LAMBDA k, c, z : c.colors # <<>> => z.cmap = c.cmap)),
       Cl("colour-of-the-chain-otherwise", ok, each(LAMBDA k, c, z : c.colors = <<>> => z.cs = <<>> /\ z.rgb = c.rgb)),
       Cl("behind-the-contours", ok, each(LAMBDA k, c, z : \A t \in DOMAIN o.panels[k].tops : o.panels[k].tops[t].rgb = c.rgb => QLt(z.z, o.panels[k].tops[t].z)))>>
=============================================================================
