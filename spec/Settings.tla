------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Resolution of chain settings: override, then user, then automatic, then *)
(* documented default.  Settings are sequences of <<field, value>> pairs;  *)
(* values are strings (exact rationals for numbers, "true"/"false", ...).  *)
(* State: [chains |-> Seq([name, user]), override |-> pairs].              *)
(***************************************************************************)
EXTENDS Exact, FiniteSets

IsSet(ps, f) == \E i \in DOMAIN ps : ps[i][1] = f
ValueOf(ps, f) == ps[CHOOSE i \in DOMAIN ps : ps[i][1] = f][2]

Default ==
  <<<<"linestyle", "-">>, <<"linewidth", "1">>, <<"show_contour_labels", "false">>,
    <<"shade_gradient", "1">>, <<"bins", "none">>, <<"smooth", "none">>, <<"kde", "false">>,
    <<"color_param", "none">>, <<"cmap", "viridis">>, <<"num_cloud", "10000">>,
    <<"plot_cloud", "false">>, <<"plot_contour", "true">>, <<"plot_point", "false">>,
    <<"marker_style", ".">>, <<"marker_size", "10">>, <<"marker_alpha", "1">>,
    <<"zorder", "10">>, <<"statistics", "max">>, <<"summary_area", "0.6827">>, <<"shift_params", "false">>, <<"multimodal", "false">>>>

(* The settings whose absence means "choose for the chains now loaded".    *)
Automatic == {"shade", "shade_alpha", "sigmas", "bar_shade", "color"}

UserOr(c, f, d) == IF IsSet(c.user, f) THEN ValueOf(c.user, f) ELSE d

(* Chains that draw contours, as the user configured them.                 *)
Drawing(s) == Cardinality({i \in DOMAIN s.chains : UserOr(s.chains[i], "plot_contour", "true") = "true"})
FewEnough(s) == IF Drawing(s) < 5 THEN "true" ELSE "false"

(* A colour of None is no colour.                                          *)
Coloured(c) == IsSet(c.user, "color") /\ ValueOf(c.user, "color") # "none"
PaletteSlot(s, i) == Cardinality({j \in 1..i : ~Coloured(s.chains[j])})
PaletteColour(pal, k) == pal[((k - 1) % Len(pal)) + 1]

AutoValue(s, i, f, pal) ==
  CASE f = "shade" -> FewEnough(s)
    [] f = "bar_shade" -> FewEnough(s)
    [] f = "shade_alpha" ->
         LET a == QDiv("1", QSqrt(IF Drawing(s) > 1 THEN Drawing(s) ELSE 1))
         IN IF UserOr(s.chains[i], "show_contour_labels", "false") = "true" THEN QMul(a, "1/2") ELSE a
    [] f = "sigmas" -> "0,1,2"
    [] f = "color" -> PaletteColour(pal, PaletteSlot(s, i))

Resolve(s, i, f, pal) ==
  IF IsSet(s.override, f) THEN ValueOf(s.override, f)
  ELSE IF f = "color" /\ ~Coloured(s.chains[i]) THEN AutoValue(s, i, f, pal)
  ELSE IF IsSet(s.chains[i].user, f) THEN ValueOf(s.chains[i].user, f)
  ELSE IF f \in Automatic THEN AutoValue(s, i, f, pal)
  ELSE IF f = "statistics" /\ "true" \in {UserOr(s.chains[i], "multimodal", "false"),
                                        IF IsSet(s.override, "multimodal") THEN ValueOf(s.override, "multimodal") ELSE "false"}
       THEN "hdi"
  ELSE ValueOf(Default, f)

SInit == [chains |-> <<>>, override |-> <<>>]
SApply(s, o) ==
  CASE o.op = "add" -> [s EXCEPT !.chains = Append(@, [name |-> o.name, user |-> o.set])]
    [] o.op = "remove" -> [s EXCEPT !.chains = SelectSeq(@, LAMBDA c : c.name # o.name)]
    [] o.op = "override" -> [s EXCEPT !.override = o.set]
    [] OTHER -> s
=============================================================================
