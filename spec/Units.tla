-------------------------------- MODULE Units --------------------------------
(* Changes of units, origin, direction and names, and additions of what is  *)
(* unrelated.  State: for each parameter the map from its original values   *)
(* to the present ones.                                                     *)
EXTENDS Relate
Id == [a |-> "1", b |-> "0"]
Then(mp, a, b) == [a |-> QMul(a, mp.a), b |-> QAdd(QMul(a, mp.b), b)]
After(m, o) == IF o.op = "map" THEN [m EXCEPT ![o.p] = Then(@, o.a, o.b)] ELSE m
(* Distances between samples keep their ratios.                             *)
Uniform(m) == \A p, r \in DOMAIN m : QEq(QAbs(m[p].a), QAbs(m[r].a))
=============================================================================
