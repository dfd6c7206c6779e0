----------------------------- MODULE MCSummary ------------------------------
(* Every small density: what must be true of the statistics by definition. *)
EXTENDS Histo, TLC, Json
CONSTANTS CELLS, TOP
VARIABLE c
Init == c \in [1..CELLS -> 0..TOP] /\ All(c) > 0
Next == FALSE /\ UNCHANGED c
Emit == PrintT("##" \o ToJson(c))
Areas == {2, 4, 5, 7}
Ordered == \A e \in Areas : CumLo(c, e) <= Median(c) /\ Median(c) <= CumHi(c, e)
Nested == \A e, f \in Areas : e <= f => CumLo(c, f) <= CumLo(c, e) /\ CumHi(c, e) <= CumHi(c, f) /\ HDIWidth(c, e) <= HDIWidth(c, f)
HDINarrowest == \A e \in Areas : HDIWidth(c, e) <= CumHi(c, e) - CumLo(c, e) + 1
HDIHolds == \A e \in Areas : \A w \in HDIs(c, e) : Enough(c, w[1], w[2], e)
Mirror == \A e \in Areas : HDIWidth(c, e) = HDIWidth(Rev(c), e)
(* Around the peak of a unimodal density a level interval is a narrowest one for its own mass. *)
LevelIsHDI == Unimodal(c) => \A p \in Peaks(c) : \A t \in 1..TOP :
   t <= c[p] => LET r == Run(c, t, p) IN
     \A w \in (DOMAIN c) \X (DOMAIN c) : (w[1] <= w[2] /\ Mass(c, w[1], w[2]) >= Mass(c, r[1], r[2])) => Wide(w) >= Wide(r)
BandsPartition == \A t \in 1..TOP : UNION {w[1]..w[2] : w \in Bands(c, t)} = Level(c, t)
BandsDisjoint == \A t \in 1..TOP : \A v, w \in Bands(c, t) : v # w => v[2] + 1 < w[1] \/ w[2] + 1 < v[1]
=============================================================================
