----------------------------- MODULE JSettings ------------------------------
(* Judge of what figures and summaries show of the resolved settings.      *)
EXTENDS Settings, Clause, TraceRun

Start(tr) == SInit
Step(s, e) == SApply(s, e.in)

Idx(s, n) == CHOOSE i \in DOMAIN s.chains : s.chains[i].name = n
Split(txt, opts) == opts[CHOOSE i \in DOMAIN opts : opts[i].k = txt].v

Level(sg) == QSub(QMul("2", QPhi(sg)), "1")

Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

SeenClauses(s, e, o) ==
  LET i == Idx(s, o.name)
      R(f) == Resolve(s, i, f, e.in.palette)
      con == R("plot_contour") = "true"
      cloud == R("plot_cloud") = "true"
      point == R("plot_point") = "true"
      shaded == R("shade") = "true" /\ QLt("0", R("shade_alpha"))
      sig == Split(R("sigmas"), e.in.sigmas)
      lines == SelectSeq(o.contours, LAMBDA c : ~c.filled)
      fills == SelectSeq(o.contours, LAMBDA c : c.filled)
      barsOn == R("bar_shade") = "true"
  IN <<Ob("contours-drawn-iff-plot_contour", (Len(lines) = 1) = con /\ (Len(o.curve) = 1) = con),
       Cl("color-of-curve", con, o.curve[1].color = R("color")),
       Cl("linestyle", con, o.curve[1].ls = R("linestyle") /\ \A j \in DOMAIN lines[1].ls : lines[1].ls[j] = R("linestyle")),
       Cl("linewidth", con, QEq(o.curve[1].lw, R("linewidth")) /\ \A j \in DOMAIN lines[1].lw : QEq(lines[1].lw[j], R("linewidth"))),
       Cl("zorder", con, QEq(o.curve[1].z, R("zorder")) /\ QEq(lines[1].z, R("zorder"))),
       Cl("shade-decides-filled-contours", con, (Len(fills) = 1) = shaded),
       Cl("shade_alpha", con /\ shaded, QNear(fills[1].alpha, R("shade_alpha"), "1e-9", "0")),
       Cl("sigmas-decide-levels", con,
          Len(lines[1].levels) = Len(sig) /\
          \A j \in DOMAIN sig : QNear(lines[1].levels[j], Level(sig[j]), "1e-9", "1e-9")),
       Cl("shade_gradient", con /\ shaded, R("shade_gradient") \in Range(o.gradient)),
       Cl("show_contour_labels", con, lines[1].labels = (R("show_contour_labels") = "true")),
       Cl("bar_shade", con /\ e.in.bounded, o.filled = barsOn),
       Cl("density-settings", con,
          \E j \in DOMAIN o.matched : o.matched[j] = <<R("bins"), R("smooth"), R("kde"), R("shift_params")>>),
       Cl("multimodal", o.bands.asked /\ (R("multimodal") = "true" => R("kde") = "false"),
          o.bands.ok /\ o.bands.several = (R("multimodal") = "true")),
       Cl("single-bound-unless-multimodal", R("multimodal") = "false", o.single),
       Cl("summary-settings", o.single,
          \E j \in DOMAIN o.stat : o.stat[j] = <<R("statistics"), R("summary_area"), R("bins"), R("smooth"), R("kde"), R("shift_params")>>),
       Ob("plot_cloud", (Len(o.cloud) = 1) = cloud),
       Cl("num_cloud", cloud, o.cloud[1].n = Split(R("num_cloud"), e.in.clouds)),
       Cl("color_param", cloud, o.cloud[1].mapped = (R("color_param") # "none")),
       Cl("cmap", cloud /\ R("color_param") # "none", o.cloud[1].cmap = R("cmap")),
       Cl("cloud-color", cloud /\ R("color_param") = "none", o.cloud[1].color = R("color")),
       Ob("plot_point", (Len(o.point) = 1) = point),
       Cl("marker_style", point, o.point[1].style = R("marker_style")),
       Cl("marker_size", point, QEq(o.point[1].size, R("marker_size"))),
       Cl("marker_alpha", point, QNear(o.point[1].alpha, R("marker_alpha"), "1e-9", "0"))>>

Clauses(s, e) ==
  IF e.op # "see" THEN <<Ob("accepted", e.out.ok)>>
  ELSE Flat([j \in DOMAIN e.out.seen |-> SeenClauses(s, e, e.out.seen[j])])
       \o <<Ob("drawing-together-equals-drawing-apart",
               /\ SameBag(e.out.full.diag, Flat([j \in DOMAIN e.out.seen |-> e.out.seen[j].akeys.diag]))
               /\ SameBag(e.out.full.pair, Flat([j \in DOMAIN e.out.seen |-> e.out.seen[j].akeys.pair]))),
            Ob("stored-settings-untouched", e.out.stored = e.in.stored)>>
=============================================================================
