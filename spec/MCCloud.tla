------------------------------- MODULE MCCloud -------------------------------
(* Every length and number of points; panels of every layout.               *)
EXTENDS Cloud, Layout, Json
CONSTANTS TOP, PANELS
VARIABLE d
Init == d \in [n : 2..TOP, k : 1..TOP, color : BOOLEAN, contour : BOOLEAN, cols : 2..3, hists : BOOLEAN, flip : BOOLEAN]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
Some == Strides(d.n, d.k) # {}
Default == (IF d.n < d.k THEN 1 ELSE d.n \div d.k) \in Strides(d.n, d.k)
AllWhenFew == d.n <= d.k => \A s \in Strides(d.n, d.k) : Picked(d.n, s) = [j \in 1..d.n |-> j]
Spread == \A s \in Strides(d.n, d.k) : LET p == Picked(d.n, s) IN p[1] = 1 /\ p[Len(p)] <= d.n /\ p[Len(p)] + s > d.n
Enough == \A s \in Strides(d.n, d.k) : LET c == Len(Picked(d.n, s)) IN c <= 2 * d.k /\ (c >= d.k \/ c = d.n)
=============================================================================
