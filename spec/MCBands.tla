------------------------------- MODULE MCBands ------------------------------
(* Heights of up to five well separated modes, and the bands they make.    *)
EXTENDS Histo, TLC, Json
CONSTANTS MODES, TOP
VARIABLE h      \* heights of the modes; the density is a pyramid on each
Init == h \in [1..MODES -> 0..TOP] /\ Cardinality({i \in 1..MODES : h[i] > 0}) >= 1
Next == FALSE /\ UNCHANGED h
Emit == PrintT("##" \o ToJson(h))
(* A mode of height a over three cells: a, 2a, a, with an empty cell after. *)
Pyramids == [k \in 1..(4 * MODES) |-> LET i == (k + 3) \div 4  j == k - 4 * (i - 1) IN
             CASE j = 1 -> h[i] [] j = 2 -> 2 * h[i] [] j = 3 -> h[i] [] OTHER -> 0]
NB(t) == Cardinality(Bands(Pyramids, t))
Present == Cardinality({i \in 1..MODES : h[i] > 0})
AtMostOnePerMode == \A t \in 1..(2 * TOP) : NB(t) <= Present
AllAtTheBottom == NB(1) = Present
TopBandHoldsPeak == \A t \in 1..(2 * TOP) : \A b \in Bands(Pyramids, t) : \A i \in DOMAIN Pyramids :
    (Pyramids[i] >= t /\ b[1] <= i /\ i <= b[2]) => \E p \in b[1]..b[2] : \A j \in b[1]..b[2] : Pyramids[p] >= Pyramids[j]
(* Raising the threshold nests the bands and shrinks what they hold.       *)
Nested == \A s, t \in 1..(2 * TOP) : s <= t => Level(Pyramids, t) \subseteq Level(Pyramids, s)
(* No other set of cells of the same mass is smaller.                      *)
Smallest == \A t \in 1..(2 * TOP) : \A i \in Level(Pyramids, t), j \in (DOMAIN Pyramids) \ Level(Pyramids, t) : Pyramids[i] > Pyramids[j]
=============================================================================
