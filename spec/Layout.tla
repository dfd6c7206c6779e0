------------------------------- MODULE Layout -------------------------------
(* Which parameters the axes of the plots show.                             *)
EXTENDS Triangle

(* The axes of the panel in row r, column c of each kind of plot; lead is  *)
(* the number of rows (walks) or columns (summary) before the parameters.  *)
Wide(cols, wrap) == IF Len(cols) < wrap THEN Len(cols) ELSE wrap
Axes(kind, cols, wrap, lead, r, c) ==
  LET Nth(i) == IF i \in DOMAIN cols THEN cols[i] ELSE "-" IN
  CASE kind = "distributions" -> <<Nth((r - 1) * Wide(cols, wrap) + c), "-">>
    [] kind = "summary" -> <<Nth(c - lead), "-">>
    [] kind = "walks" -> <<"-", Nth(r - lead)>>
(* All kinds: l = [kind, cols, hists, flip, wrap, lead].                   *)
Shows(l, r, c) == IF l.kind = "triangle" THEN IF r > Size(l) \/ c > Size(l) THEN <<"-", "-">> ELSE <<Hor(l, r, c), Ver(l, r, c)>>
                  ELSE Axes(l.kind, l.cols, l.wrap, l.lead, r, c)
=============================================================================
