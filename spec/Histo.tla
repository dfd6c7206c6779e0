-------------------------------- MODULE Histo -------------------------------
(* The same statistics in the small: a density is a sequence of counts.    *)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Mass(_, _, _)
Mass(c, a, b) == IF a > b THEN 0 ELSE c[a] + Mass(c, a + 1, b)
All(c) == Mass(c, 1, Len(c))
(* areas are in eighths                                                    *)
Enough(c, a, b, e) == 8 * Mass(c, a, b) >= e * All(c)
Quant(c, num, den) == Min({i \in DOMAIN c : den * Mass(c, 1, i) >= num * All(c)})
CumLo(c, e) == Quant(c, 8 - e, 16)
CumHi(c, e) == Quant(c, 8 + e, 16)
Median(c) == Quant(c, 1, 2)
Peaks(c) == {i \in DOMAIN c : \A j \in DOMAIN c : c[i] >= c[j]}
Windows(c, e) == {w \in (DOMAIN c) \X (DOMAIN c) : w[1] <= w[2] /\ Enough(c, w[1], w[2], e)}
Wide(w) == w[2] - w[1] + 1
HDIWidth(c, e) == Min({Wide(w) : w \in Windows(c, e)})
HDIs(c, e) == {w \in Windows(c, e) : Wide(w) = HDIWidth(c, e)}
Level(c, t) == {i \in DOMAIN c : c[i] >= t}
(* The run of cells at or above t around cell i.                           *)
Run(c, t, i) == LET ok(a, b) == \A k \in a..b : c[k] >= t
                IN <<Min({a \in 1..i : ok(a, i)}), Max({b \in i..Len(c) : ok(i, b)})>>
(* The bands at or above t, in order.                                      *)
Bands(c, t) == {w \in (DOMAIN c) \X (DOMAIN c) :
                  /\ w[1] <= w[2] /\ \A k \in w[1]..w[2] : c[k] >= t
                  /\ (w[1] > 1 => c[w[1] - 1] < t) /\ (w[2] < Len(c) => c[w[2] + 1] < t)}
RECURSIVE SetMass(_, _)
SetMass(c, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN c[i] + SetMass(c, S \ {i})
Rev(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i]]
Unimodal(c) == \E p \in DOMAIN c : (\A i \in 1..(p - 1) : c[i] <= c[i + 1]) /\ (\A i \in p..(Len(c) - 1) : c[i] >= c[i + 1])
=============================================================================
