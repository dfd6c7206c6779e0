------------------------------ MODULE Weights -------------------------------
(***************************************************************************)
(* A weighted sample list is a sequence of blocks [id, n]: n copies' worth *)
(* of the rows of block id, all weights multiplied by scale.  What it      *)
(* says is only the share each block has of the total.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_, _)
Total(rows, id) == IF rows = <<>> THEN 0
                   ELSE (IF id = 0 \/ Head(rows).id = id THEN Head(rows).n ELSE 0) + Total(Tail(rows), id)

RECURSIVE Ones(_, _)
Ones(id, n) == IF n = 0 THEN <<>> ELSE <<[id |-> id, n |-> 1]>> \o Ones(id, n - 1)
RECURSIVE Unfold(_)
Unfold(rows) == IF rows = <<>> THEN <<>> ELSE Ones(Head(rows).id, Head(rows).n) \o Unfold(Tail(rows))
Split(rows, i, k) == SubSeq(rows, 1, i - 1) \o <<[rows[i] EXCEPT !.n = k], [rows[i] EXCEPT !.n = @ - k]>>
                     \o SubSeq(rows, i + 1, Len(rows))
Reverse(rows) == [i \in DOMAIN rows |-> rows[Len(rows) + 1 - i]]
Rotate(rows) == Tail(rows) \o <<Head(rows)>>
Swap(rows, i, j) == [rows EXCEPT ![i] = rows[j], ![j] = rows[i]]

(* Same shares: rows and base are the same weighted samples.               *)
SameShares(rows, base, ids) ==
  \A id \in ids : Total(rows, id) * Total(base, 0) = Total(base, id) * Total(rows, 0)
=============================================================================
