------------------------------- MODULE Legend --------------------------------
(***************************************************************************)
(* The legend and the colour bars of the triangle plot.  A drawn chain is  *)
(* [name, rgb, ls, wide, marker, msize, contour, point, cloud, label (in the legend),   *)
(* color ("-" or a column), params, lo, hi (range of its colour values)].  *)
(* cfg = [show ("auto", "yes", "no"), place (<<>> or <<row, column>>       *)
(* counted from zero, from the end when negative), text].                  *)
(***************************************************************************)
EXTENDS Triangle, Exact, TLC, FiniteSets

Shown(cs, cfg) == cfg.show = "yes" \/ (cfg.show = "auto" /\ Len(cs) > 1)
FromZero(i, n) == IF i < 0 THEN n + i ELSE i
Place(lay, cfg) ==
  LET n == Size(lay)
      p == IF cfg.place # <<>> THEN cfg.place ELSE IF Flips(lay) THEN <<-1, 0>> ELSE <<0, -1>>
  IN <<FromZero(p[1], n) + 1, FromZero(p[2], n) + 1>>
Entries(cs) == SelectSeq(cs, LAMBDA c : c.label)
(* What an entry must show of its chain.                                   *)
LineLike(c) == c.contour
PointLike(c) == c.point
EntryOk(c, h) ==
  /\ h.rgb = c.rgb
  /\ (LineLike(c) => h.ls = c.ls /\ h.lw /\ QEq(h.wide, c.wide))
  /\ (LineLike(c) /\ ~PointLike(c) => ~h.dot)
  /\ (PointLike(c) => h.dot /\ h.marker = c.marker /\ QNear(QMul(h.size, h.size), c.msize, "1e-9", "1e-9"))
  /\ (PointLike(c) /\ ~LineLike(c) => ~h.lw)
(* Colour bars.                                                            *)
Coloured(lay, c) == /\ c.cloud /\ c.color # "-"
                    /\ \E x \in Places(lay) : Kind(lay, x[1], x[2]) = "joint" /\ Params(lay, x[1], x[2]) \subseteq c.params
Bars(lay, cs) == {cs[i].color : i \in {j \in DOMAIN cs : Coloured(lay, cs[j])}}
Users(lay, cs, b) == {i \in DOMAIN cs : Coloured(lay, cs[i]) /\ cs[i].color = b}
=============================================================================
