----------------------------- MODULE Acceptance -----------------------------
(***************************************************************************)
(* Which chains can be built, and what an accepted chain carries.          *)
(* A description d: cols (sequence of [name, text, vals]), wcol, pcol,     *)
(* walkers, color, multimodal, stat, set (bounded settings), shift.        *)
(* Values are exact rationals as strings, or "nan", "inf", "-inf".         *)
(***************************************************************************)
EXTENDS Exact, FiniteSets

Finite(v) == v \notin {"nan", "inf", "-inf"}
HasCol(d, n) == \E i \in DOMAIN d.cols : d.cols[i].name = n
Col(d, n) == d.cols[CHOOSE i \in DOMAIN d.cols : d.cols[i].name = n]
Rows(d) == IF d.cols = <<>> THEN 0 ELSE Len(d.cols[1].vals)

(* Bounds of the bounded settings: <<least, greatest>>, "-" for none.      *)
Bounds == [summary_area |-> <<"0", "1">>, marker_size |-> <<"1", "-">>, walkers |-> <<"1", "-">>,
           num_free_params |-> <<"0", "-">>, num_eff_data_points |-> <<"0", "-">>,
           histogram_relative_height |-> <<"0", "-">>]
InBounds(f, v) == /\ Finite(v) \/ f \in {"marker_size", "histogram_relative_height"}
                  /\ Finite(v) => /\ QLe(Bounds[f][1], v)
                                  /\ Bounds[f][2] # "-" => QLe(v, Bounds[f][2])
Setting(d, f) == LET h == SelectSeq(d.set, LAMBDA p : p[1] = f) IN IF h = <<>> THEN "unset" ELSE h[1][2]
WalkersOf(d) == IF Setting(d, "walkers") = "unset" THEN "1" ELSE Setting(d, "walkers")

Accepts(d) ==
  /\ Rows(d) > 0
  /\ \A i \in DOMAIN d.cols : d.cols[i].text /\ \A r \in DOMAIN d.cols[i].vals : Finite(d.cols[i].vals[r])
  /\ HasCol(d, d.wcol) \/ d.wcol = "weight"
  /\ HasCol(d, d.wcol) => \A r \in 1..Rows(d) : QLt("0", Col(d, d.wcol).vals[r])
  /\ d.color = "none" \/ HasCol(d, d.color) \/ (d.color = "weight" /\ d.wcol = "weight")
  /\ \A i \in DOMAIN d.set : InBounds(d.set[i][1], d.set[i][2])
  /\ Rows(d) % QInt(WalkersOf(d)) = 0
  /\ d.multimodal => d.stat \in {"none", "hdi"}

StatOf(d) == IF d.stat # "none" THEN d.stat ELSE IF d.multimodal THEN "hdi" ELSE "max"

Reserved == {"weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"}
IsParam(d, n) == n \notin {d.wcol, d.pcol} /\ SLower(n) \notin Reserved
WeightsOf(d) == IF HasCol(d, d.wcol) THEN Col(d, d.wcol).vals ELSE [r \in 1..Rows(d) |-> "1"]
Mean(xs, ws) == QDiv(QDot(xs, ws), QSum(ws))
Carried(d, c) == IF d.shift /\ IsParam(d, c.name) THEN QShift(c.vals, Mean(c.vals, WeightsOf(d))) ELSE c.vals
=============================================================================
