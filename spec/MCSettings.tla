----------------------------- MODULE MCSettings -----------------------------
(* Bounded exploration of the resolution rules on one automatic field      *)
(* ("shade"), one plain field ("zorder") and the colour.                   *)
EXTENDS Settings, Integers, Sequences, TLC, Json
CONSTANTS MAXCH

Pal == <<"c1", "c2", "c3">>
Opt(f, vals) == {<<>>} \cup {<<<<f, v>>>> : v \in vals}
Users == {a \o b \o c : a \in Opt("shade", {"true", "false"}), b \in Opt("color", {"none", "x"}),
                        c \in Opt("plot_contour", {"false"})}
Overs == {a \o b : a \in Opt("shade", {"true", "false"}), b \in Opt("color", {"y"})}

VARIABLES s, h
vars == <<s, h>>
Init == s = SInit /\ h = <<>>
Do(o) == s' = SApply(s, o) /\ h' = Append(h, o)
Names == {s.chains[i].name : i \in DOMAIN s.chains}
Next == \/ \E u \in Users, n \in 1..MAXCH :
             /\ n \notin Names
             /\ Len(s.chains) < MAXCH
             /\ Do([op |-> "add", name |-> n, set |-> u])
        \/ \E n \in Names : Do([op |-> "remove", name |-> n, set |-> <<>>])
        \/ \E u \in Overs : Do([op |-> "override", name |-> 0, set |-> u])
View == s
Emit == PrintT("##" \o ToJson(h'))

(* Design properties.                                                      *)
OverrideWins == \A i \in DOMAIN s.chains : \A f \in {"shade", "color"} :
  IsSet(s.override, f) => Resolve(s, i, f, Pal) = ValueOf(s.override, f)
UserBeatsAuto == \A i \in DOMAIN s.chains :
  (~IsSet(s.override, "shade") /\ IsSet(s.chains[i].user, "shade"))
     => Resolve(s, i, "shade", Pal) = ValueOf(s.chains[i].user, "shade")
DistinctAuto == \A i, j \in DOMAIN s.chains :
  (i # j /\ ~IsSet(s.override, "color") /\ ~Coloured(s.chains[i]) /\ ~Coloured(s.chains[j]) /\ MAXCH <= 3)
     => Resolve(s, i, "color", Pal) # Resolve(s, j, "color", Pal)
(* Adding a chain at the end never changes the colour of another.          *)
StableColour == [][\A i \in DOMAIN s.chains :
   (Len(s'.chains) > Len(s.chains)) => Resolve(s', i, "color", Pal) = Resolve(s, i, "color", Pal)]_vars
=============================================================================
