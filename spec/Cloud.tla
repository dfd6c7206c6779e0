-------------------------------- MODULE Cloud --------------------------------
(***************************************************************************)
(* A cloud of about k of the n samples of a chain: every s-th of them.     *)
(***************************************************************************)
EXTENDS Exact, TLC, Sequences, FiniteSets
Count(n, s) == (n + s - 1) \div s
Strides(n, k) == IF n <= k THEN {1} ELSE {s \in 1..n : Count(n, s) >= k /\ Count(n, s) <= 2 * k}
Picked(n, s) == [j \in 1..Count(n, s) |-> 1 + (j - 1) * s]
\* points drawn are columns of one row each; color is <<>> without colours
Draws(o, xs, ys, cs, s) ==
  LET id == Picked(Len(xs), s) IN
  /\ Len(o.xs) = Len(id) /\ Len(o.ys) = Len(id)
  /\ \A j \in DOMAIN id : o.xs[j] = xs[id[j]] /\ o.ys[j] = ys[id[j]]
  /\ (cs # <<>> => Len(o.cs) = Len(id) /\ \A j \in DOMAIN id : o.cs[j] = cs[id[j]])
=============================================================================
