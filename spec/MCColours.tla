----------------------------- MODULE MCColours -----------------------------
(* Collections of chains with and without a colour, and every subset of    *)
(* them that can be drawn.                                                 *)
EXTENDS Settings, Integers, Sequences, TLC, Json
CONSTANTS MAXCH, PALLEN

Pal == [i \in 1..PALLEN |-> i]
Kinds == {"chain", "marker"}
Cols == {<<>>, <<<<"color", "none">>>>, <<<<"color", "x">>>>}

VARIABLES s, h
vars == <<s, h>>
Init == s = SInit /\ h = <<>>
Names == {s.chains[i].name : i \in DOMAIN s.chains}
Do(o) == s' = SApply(s, o) /\ h' = Append(h, o)
Next == \/ \E u \in Cols, n \in 1..MAXCH, k \in Kinds :
             /\ n \notin Names /\ Len(s.chains) < MAXCH
             /\ k = "marker" => u # <<<<"color", "none">>>>
             /\ Do([op |-> "add", name |-> n, set |-> u, kind |-> k])
        \/ \E n \in Names : Do([op |-> "remove", name |-> n, set |-> <<>>, kind |-> "-"])
View == [i \in DOMAIN s.chains |-> <<s.chains[i].user, s.chains[i].name>>]
Emit == PrintT("##" \o ToJson([h |-> h', sub |-> SUBSET {s'.chains[i].name : i \in DOMAIN s'.chains} \ {{}}]))

Colour(t, i) == Resolve(t, i, "color", Pal)
(* Automatic colours are distinct until the palette is used up ...          *)
Distinct == \A i, j \in DOMAIN s.chains :
  (i # j /\ ~Coloured(s.chains[i]) /\ ~Coloured(s.chains[j]) /\ MAXCH <= PALLEN) => Colour(s, i) # Colour(s, j)
(* ... run through it without gaps ...                                      *)
NoGaps == LET a == {PaletteSlot(s, i) : i \in {j \in DOMAIN s.chains : ~Coloured(s.chains[j])}}
          IN a = 1..Cardinality(a)
(* ... explicit colours are kept, and chains before a change keep theirs.   *)
Kept == \A i \in DOMAIN s.chains : Coloured(s.chains[i]) => Colour(s, i) = ValueOf(s.chains[i].user, "color")
PrefixStable == [][\A i \in DOMAIN s.chains :
   (i \in DOMAIN s'.chains /\ SubSeq(s.chains, 1, i) = SubSeq(s'.chains, 1, i)) => Colour(s', i) = Colour(s, i)]_vars
=============================================================================
