------------------------------- MODULE Points -------------------------------
(***************************************************************************)
(* The best sample of a chain, and the panels in which points are drawn.   *)
(* A chain is [lps, rows (parameter values per sample), have (parameters)].*)
(***************************************************************************)
EXTENDS Exact, Integers, Sequences, FiniteSets

BestRows(lps) == {i \in DOMAIN lps : \A j \in DOMAIN lps : QLe(lps[j], lps[i])}
(* Is (value, coordinates) the best sample of the chain?                   *)
IsBest(c, lp, at) == \E i \in BestRows(c.lps) : QEq(lp, c.lps[i]) /\ Len(at) = Len(c.rows[i]) /\ \A k \in DOMAIN at : QEq(at[k], c.rows[i][k])
InSeq(x, q) == \E i \in DOMAIN q : q[i] = x
Index(x, q) == CHOOSE i \in DOMAIN q : q[i] = x
(* The point of chain c in a panel of parameters a (across) and b (up).     *)
Dots(c, a, b) == IF c.lps = <<>> \/ ~c.point \/ ~InSeq(a, c.have) \/ ~InSeq(b, c.have) THEN {}
                 ELSE {<<c.rows[i][Index(a, c.have)], c.rows[i][Index(b, c.have)]>> : i \in BestRows(c.lps)}
=============================================================================
