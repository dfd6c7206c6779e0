-------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* The walk figure.  A chain is [data: {p: values in order}, ws, post (<<>>*)
(* without one)].  ask = [post, weights, log, window (0 for none)].        *)
(***************************************************************************)
EXTENDS Exact, TLC, FiniteSets, Sequences

HasPost(c) == c.post # <<>>
Rows(cs, cols, ask) ==
  (IF ask.post /\ \E i \in DOMAIN cs : HasPost(cs[i]) THEN <<[k |-> "post", p |-> "-"]>> ELSE <<>>)
  \o (IF ask.weights THEN <<[k |-> "weights", p |-> "-"]>> ELSE <<>>)
  \o [i \in DOMAIN cols |-> [k |-> "param", p |-> cols[i]]]
In(c, row) == CASE row.k = "post" -> HasPost(c)
                [] row.k = "weights" -> TRUE
                [] OTHER -> row.p \in DOMAIN c.data
Log10(v) == QDiv(QLn(v), QLn("10"))
Steps(c, row, ask) ==
  CASE row.k = "post" -> LET m == QMaxSeq(c.post) IN TLCEval([i \in DOMAIN c.post |-> QSub(c.post[i], m)])
    [] row.k = "weights" -> IF ask.log THEN TLCEval([i \in DOMAIN c.ws |-> Log10(c.ws[i])]) ELSE c.ws
    [] OTHER -> c.data[row.p]
Longest(s) == CHOOSE m \in s : \A x \in s : x <= m
(* The running mean over w steps, at step k (from one); h steps before k.  *)
Whole(n, w, k, h) == k - h >= 1 /\ k - h + w - 1 <= n
Mean(s, w, k, h) == QDiv(QSum(SubSeq(s, k - h, k - h + w - 1)), w)
Halves(w) == IF w % 2 = 1 THEN {w \div 2} ELSE {w \div 2, w \div 2 - 1}
(* Steps that must have a mean: those with half a window on both sides.    *)
Core(n, w) == {k \in 1..n : k > w \div 2 /\ k <= n - w \div 2}
=============================================================================
