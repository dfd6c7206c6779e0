------------------------------ MODULE MCColour -------------------------------
(* Histories: an input is formatted, then scaled and formatted repeatedly.  *)
EXTENDS Colour, Json, Sequences
CONSTANTS LEVELS, FACTORS, DEPTH
VARIABLES input, now, h
vars == <<input, now, h>>
Hexes == {[k |-> "hex", rgb |-> <<a, b, c>>] : a, b, c \in LEVELS}
Names == {[k |-> "name", name |-> n] : n \in DOMAIN Palette}
Denoted(x) == IF x.k = "hex" THEN x.rgb ELSE Palette[x.name]
Init == /\ input \in Hexes \cup Names
        /\ now = Denoted(input)
        /\ h = <<>>
Next == /\ Len(h) < DEPTH
        /\ \E f \in FACTORS \cup {"format"} : h' = Append(h, f) /\ now' = IF f = "format" THEN now ELSE ScaleDown(now, f)
        /\ UNCHANGED input
Emit == Len(h) = DEPTH => PrintT("##" \o ToJson([input |-> input, h |-> h]))
AlwaysValid == Valid(now)
OneColour == Denotes(input, Denoted(input))
ScaleMeets == \A f \in FACTORS : Scaled(now, f, ScaleDown(now, f))
Identity == ScaleDown(now, "1") = now /\ ScaleDown(now, "-1/2") = now
Black == ScaleDown(now, "0") = <<0, 0, 0>>
Darker == \A f \in FACTORS : QLe("0", f) /\ QLe(f, "1") => \A i \in Channels : ScaleDown(now, f)[i] <= now[i]
NotMoreThanWhite == ScaleDown(now, "100000") = [i \in Channels |-> IF now[i] = 0 THEN 0 ELSE 255]
=============================================================================
