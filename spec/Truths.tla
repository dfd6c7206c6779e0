------------------------------- MODULE Truths -------------------------------
(***************************************************************************)
(* Reference values drawn over a plot.  A truth t has loc (sequence of     *)
(* [parameter, value]), and a style: color, ls, lw, alpha, z, and marker   *)
(* ("" for none), size, edge ("" for the colour), filled, elw.             *)
(***************************************************************************)
EXTENDS Layout

Given(t, p) == \E i \in DOMAIN t.loc : t.loc[i][1] = p
At(t, p) == t.loc[CHOOSE i \in DOMAIN t.loc : t.loc[i][1] = p][2]
LineItem(t, k, x, y) == [k |-> k, x |-> x, y |-> y, color |-> t.color, alpha |-> t.alpha, z |-> t.z, ls |-> t.ls, lw |-> t.lw, marker |-> "", size |-> "", edge |-> "", elw |-> ""]
PointItem(t, x, y) == [k |-> "m", x |-> x, y |-> y, color |-> t.color, alpha |-> t.alpha, z |-> t.z, ls |-> "", lw |-> "", marker |-> t.marker, size |-> t.size,
                       edge |-> IF t.filled /\ t.edge # "" THEN t.edge ELSE t.color, elw |-> IF t.filled THEN t.elw ELSE ""]
(* What t shows in a panel whose axes are hor and ver ("-" for no          *)
(* parameter).                                                             *)
Items(t, hor, ver) ==
  IF Given(t, hor) /\ Given(t, ver) /\ t.marker # "" THEN <<PointItem(t, At(t, hor), At(t, ver))>>
  ELSE (IF Given(t, hor) THEN <<LineItem(t, "v", At(t, hor), "")>> ELSE <<>>) \o
       (IF Given(t, ver) THEN <<LineItem(t, "h", "", At(t, ver))>> ELSE <<>>)
RECURSIVE All(_, _, _)
All(ts, hor, ver) == IF ts = <<>> THEN <<>> ELSE Items(Head(ts), hor, ver) \o All(Tail(ts), hor, ver)
=============================================================================
