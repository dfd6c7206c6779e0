------------------------------ MODULE MCCurve -------------------------------
(* Small histograms, and every scene they can be drawn in.                  *)
EXTENDS Curve, Histo, Json
CONSTANTS CELLS, TOP
VARIABLE d
Shapes == {c \in [1..CELLS -> 0..TOP] : All(c) > 0}
Kinds == {"triangle", "flipped", "distributions", "summary", "plot_dist"}
Init == \/ d \in [t : {"shape"}, c : Shapes]
        \/ d \in [t : {"scene"}, kind : Kinds, summarise : BOOLEAN, on : BOOLEAN, blind : BOOLEAN, chains : 1..2]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
Bars(c, p) == [i \in DOMAIN c |-> Bar(QDiv(c[i], All(c)), "1/2", p, "1")]
UnitArea == d.t = "shape" => QEq(QMul("1/2", QSum(Bars(d.c, "1"))), "1")
NotNegative == d.t = "shape" => \A p \in {"1", "2"} : \A i \in DOMAIN d.c : QLe("0", Bars(d.c, p)[i])
SameOrder == d.t = "shape" => \A i, j \in DOMAIN d.c : QLt(Bars(d.c, "1")[i], Bars(d.c, "1")[j]) <=> QLt(Bars(d.c, "2")[i], Bars(d.c, "2")[j])
PowersPowered == d.t = "shape" => \A i \in DOMAIN d.c : QNear(Bars(d.c, "2")[i], QMul(Bars(d.c, "1")[i], Bars(d.c, "1")[i]), "1e-40", "0")
NoTitleOfSeveral == d.t = "scene" => (Titled(d) => d.chains = 1 /\ ~d.blind)
=============================================================================
