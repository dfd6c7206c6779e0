------------------------------ MODULE Triangle ------------------------------
(***************************************************************************)
(* The layout of the triangle plot.  d = [cols, hists, flip]: requested    *)
(* parameters in order, whether marginals are drawn, whether flipping is   *)
(* on.  Rows and columns are counted from one, from the top left.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Size(d) == IF d.hists THEN Len(d.cols) ELSE Len(d.cols) - 1
Flips(d) == d.hists /\ d.flip /\ Len(d.cols) = 2
Places(d) == (1..Size(d)) \X (1..Size(d))
Kind(d, r, c) == IF r < c THEN "blank"
                 ELSE IF d.hists /\ r = c THEN (IF Flips(d) /\ r = 2 THEN "flipped" ELSE "marginal")
                 ELSE "joint"
(* The parameter along the horizontal and the vertical axis.               *)
Hor(d, r, c) == IF Kind(d, r, c) \in {"joint", "marginal"} THEN d.cols[c] ELSE "-"
Ver(d, r, c) == IF Kind(d, r, c) = "joint" THEN d.cols[IF d.hists THEN r ELSE r + 1]
                ELSE IF Kind(d, r, c) = "flipped" THEN d.cols[r] ELSE "-"
Params(d, r, c) == {Hor(d, r, c), Ver(d, r, c)} \ {"-"}
(* Which axes carry a label and ticks.                                     *)
ShownX(d, r, c) == IF r = Size(d) THEN Hor(d, r, c) ELSE "-"
ShownY(d, r, c) == IF c = 1 /\ Kind(d, r, c) = "joint" THEN Ver(d, r, c) ELSE "-"
=============================================================================
