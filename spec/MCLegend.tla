------------------------------ MODULE MCLegend -------------------------------
(* Every small legend.                                                      *)
EXTENDS Legend, Json
CONSTANT CHAINS
VARIABLE d
One == [role : {"contour", "point", "both", "cloud", "cloudline"}, label : BOOLEAN, color : {"-", "u", "v"}, pq : BOOLEAN]
Init == \E k \in 1..CHAINS : d \in [chains : {f \in [1..k -> One] : \E i \in 1..k : f[i].pq}, show : {"auto", "yes", "no"}, place : {<<>>, <<0, 0>>, <<-1, -1>>, <<-1, 0>>}, n : 1..3, flip : BOOLEAN, hists : BOOLEAN]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
Names == <<"p", "q", "r">>
Lay == [cols |-> SubSeq(Names, 1, d.n), hists |-> d.hists, flip |-> d.flip]
C(i) == LET z == d.chains[i] IN [name |-> i, label |-> z.label, contour |-> z.role \in {"contour", "both", "cloudline"}, point |-> z.role \in {"point", "both"}, cloud |-> z.role \in {"cloud", "cloudline"},
                                 color |-> z.color, params |-> IF z.pq THEN {"p", "q", "r"} ELSE {"p"}]
Cs == [i \in DOMAIN d.chains |-> C(i)]
Cfg == [show |-> d.show, place |-> d.place]
Sized == d.hists \/ d.n > 1
Inside == Sized => Place(Lay, Cfg) \in Places(Lay)
Lonely == Len(Cs) = 1 /\ d.show = "auto" => ~Shown(Cs, Cfg)
NoPairNoBar == d.n = 1 => Bars(Lay, Cs) = {}
OneBarEach == Sized => Cardinality(Bars(Lay, Cs)) <= Cardinality({Cs[i].color : i \in DOMAIN Cs} \ {"-"})
OnlyClouds == Sized => \A b \in Bars(Lay, Cs) : \E i \in DOMAIN Cs : Cs[i].cloud /\ Cs[i].color = b
EntriesInOrder == \A i, j \in DOMAIN Entries(Cs) : i < j => Entries(Cs)[i].name < Entries(Cs)[j].name
=============================================================================
