------------------------------ MODULE MCExtents ------------------------------
(* Which chains decide an axis: every small scene, with one sample set each. *)
EXTENDS Extents, Json
CONSTANT CHAINS
VARIABLE d
Kinds == {"triangle", "flipped", "lower", "distributions", "summary", "errorbar", "walks"}
One == [role : {"contour", "cloud", "grid", "point", "both"}, skip : BOOLEAN, has : BOOLEAN]
Init == \E n \in 1..CHAINS : d \in [kind : Kinds, given : BOOLEAN, chains : {c \in [1..n -> One] : \E i \in 1..n : ~c[i].skip /\ c[i].has}]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
C(i) == LET z == d.chains[i] IN Chain0(~z.skip, z.role # "point", z.role = "grid", IF z.has THEN <<10 * i, 10 * i + 2, 10 * i + 5>> ELSE <<>>, <<1, 1, 1>>,
                                      IF z.has /\ z.role \in {"point", "both"} THEN <<10 * i + 2>> ELSE <<>>)
Cs == [i \in DOMAIN d.chains |-> C(i)]
Widest == <<-5, 100>>
SomeFit == \A i \in DOMAIN Cs : Fits(Cs, Widest[1], Widest[2], "1e-4")
\* the hull of the ranges is both wide enough and tight
Hull == LET h == Having(Cs)
            lo == QMinSeq([i \in DOMAIN Cs |-> IF i \in h THEN IF Cs[i].body THEN Least(Cs[i]) ELSE Cs[i].point[1] ELSE "1000"])
            hi == QMaxSeq([i \in DOMAIN Cs |-> IF i \in h THEN IF Cs[i].body THEN Most(Cs[i]) ELSE Cs[i].point[1] ELSE "-1000"])
        IN Fits(Cs, lo, hi, "1e-4") /\ Tight(Cs, lo, hi)
\* what is not drawn, and what lacks the parameter, does not matter
Others == \A i \in DOMAIN Cs \ Having(Cs) : \A v \in {0, 12, 25} : Fits(Cs, v, 40, "1e-4") = Fits([Cs EXCEPT ![i] = Chain0(Cs[i].drawn, Cs[i].body, Cs[i].grid, <<>>, <<>>, <<>>)], v, 40, "1e-4")
\* leaving one chain out is noticed
EachMatters == \A i \in Having(Cs) : ~Fits(Cs, 10 * i + 6, 100, "1e-4")
=============================================================================
