------------------------------ MODULE MCPanels -------------------------------
(* Every small pair of collections and arrangements.                        *)
EXTENDS Panels, TLC, Json
CONSTANT CHAINS
VARIABLE d
One == [role : {"contour", "cloud", "point", "both"}, has : {<<"p">>, <<"q">>, <<"p", "q">>, <<"q", "p">>, <<"r", "p">>, <<"p", "q", "r">>}]
Init == \E k \in 1..CHAINS : d \in [chains : [1..k -> One], kind : {"distributions", "summary"}, wrap : 1..4, cols : {<<>>, <<"p">>, <<"q", "p">>, <<"r", "q", "p">>}]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
Cs == [i \in DOMAIN d.chains |-> [name |-> i, params |-> d.chains[i].has, contour |-> d.chains[i].role \in {"contour", "both"}, cloud |-> d.chains[i].role = "cloud"]]
Cols == IF d.cols = <<>> THEN Default(Cs) ELSE d.cols
Sh == Shape(d.kind, Cs, Cols, d.wrap)
Cells == {<<r, c>> : r \in 1..Sh[1], c \in 1..Sh[2]}
At(x) == Param(d.kind, Cols, d.wrap, x[1], x[2])
Draws(x) == Shown(d.kind, Cs, Cols, d.wrap, x[1], x[2])
EveryParameter == \A i \in DOMAIN Cols : Cardinality({x \in Cells : At(x) = Cols[i]}) = (IF d.kind = "summary" THEN Len(Cs) ELSE 1)
InOrder == d.kind = "distributions" => \A x, y \in Cells : \A i, j \in DOMAIN Cols : At(x) = Cols[i] /\ At(y) = Cols[j] /\ i < j => x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
FewBlanks == d.kind = "distributions" => Cardinality({x \in Cells : At(x) = "-"}) < d.wrap
Once == \A k \in DOMAIN Cs : \A i \in DOMAIN Cols :
          Cardinality({x \in Cells : At(x) = Cols[i] /\ \E m \in DOMAIN Draws(x) : Draws(x)[m] = k})
            = (IF Cols[i] \in PSet(Cs[k]) /\ (Cs[k].contour \/ (Cs[k].cloud /\ d.kind = "summary")) THEN 1 ELSE 0)
DefaultIsUnion == {Cols[i] : i \in DOMAIN Cols} = UNION {PSet(Cs[k]) : k \in DOMAIN Cs} \/ d.cols # <<>>
=============================================================================
