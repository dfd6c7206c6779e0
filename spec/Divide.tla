------------------------------- MODULE Divide -------------------------------
(* Splitting a sequence of rows into w equal consecutive walkers.           *)
EXTENDS Integers, Sequences

Dividable(n, w, grid) == w > 1 /\ n % w = 0 /\ ~grid
Block(rows, w, i) == LET k == Len(rows) \div w IN SubSeq(rows, (i - 1) * k + 1, i * k)
Parts(rows, w) == [i \in 1..w |-> Block(rows, w, i)]
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Join(Tail(ps))
=============================================================================
