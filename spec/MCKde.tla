-------------------------------- MODULE MCKde --------------------------------
(* Small training sets on a lattice, and what the estimate must satisfy.    *)
EXTENDS Kde, Json
CONSTANTS DIM, N, SIDE, TOPW
VARIABLE d
Pts == [1..DIM -> 0..SIDE]
K(x) == [pts |-> x.pts, ws |-> x.ws, factor |-> x.factor, trunc |-> x.trunc, nmin |-> x.nmin]
Full(p) == LET k == [pts |-> p, ws |-> [i \in DOMAIN p |-> 1]] IN ~QEq(Det(Covar(k), DIM), "0")
Key(p) == QSum([j \in 1..DIM |-> QMul(p[j], (SIDE + 1)^(j - 1))])
Ordered(p) == \A i \in 1..(N - 1) : QLe(Key(p[i]), Key(p[i + 1]))
Sets == {p \in [1..N -> Pts] : Ordered(p) /\ Full(p)}
Init == d \in [pts : Sets, ws : {w \in [1..N -> 1..TOPW] : w[N] = 1}, factor : {"1/2", "1"}, trunc : {"1", "3"}, nmin : {2, N}, at : {[j \in 1..DIM |-> 0], [j \in 1..DIM |-> SIDE + j]}]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
V(x) == LET k == K(x) IN Estimate(k, Ready(k), x.at)
Same(a, b) == QNear(a, b, "1e-30", "0")
Sure == LET k == K(d) IN Clear(k, Ready(k), d.at)
\* x -> 2x + (sum of the earlier coordinates) - 3: an affine map
Map(p) == [j \in 1..DIM |-> QSub(QAdd(QMul("-2", p[j]), QSum([i \in 1..(j - 1) |-> p[i]])), "3")]
NotNegative == QLe("0", V(d))
AtMostTheWeight == QLe(V(d), QSum(d.ws))
LinearInTheWeights == Same(V([d EXCEPT !.ws = [i \in 1..N |-> QMul("7/3", d.ws[i])]]), QMul("7/3", V(d)))
Affine == Sure => Same(V([d EXCEPT !.pts = [i \in 1..N |-> Map(d.pts[i])], !.at = Map(d.at)]), V(d))
OrderFree == Sure => Same(V([d EXCEPT !.pts = [i \in 1..N |-> d.pts[N + 1 - i]], !.ws = [i \in 1..N |-> d.ws[N + 1 - i]]]), V(d))
AtLeastSome == LET k == K(d)  z == Ready(k) IN Cardinality(Used(k, z, Dist(k, z, d.at))) >= d.nmin
FarPointsAreLeftOut == LET k == K(d)  z == Ready(k)  dd == Dist(k, z, d.at)  u == Used(k, z, dd) IN
  \A i \in u, j \in (1..N) \ u : QLe(dd[i], dd[j])
=============================================================================
