------------------------------- MODULE Roles --------------------------------
(***************************************************************************)
(* What the columns of a chain are for.  A chain is                        *)
(*   [cols |-> names in order, wcol, pcol, color, cloud, drawn]            *)
(* color = "none" when no colour parameter; drawn: it draws something.     *)
(***************************************************************************)
EXTENDS Exact, FiniteSets, TLC

Reserved == {"weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"}
IsParameter(c, n) == n # c.wcol /\ n # c.pcol /\ SLower(n) \notin Reserved
Params(c) == SelectSeq(c.cols, LAMBDA n : IsParameter(c, n))
Plotted(c) == SelectSeq(Params(c), LAMBDA n : ~(c.cloud /\ n = c.color))
HasName(c, n) == \E i \in DOMAIN c.cols : c.cols[i] = n
InSeq(x, q) == \E i \in DOMAIN q : q[i] = x

RECURSIVE FirstSeen(_)
FirstSeen(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET before == FirstSeen(SubSeq(cs, 1, Len(cs) - 1)) IN
       before \o SelectSeq(Plotted(cs[Len(cs)]), LAMBDA n : ~InSeq(n, before))

Drawn(cs) == SelectSeq(cs, LAMBDA c : c.drawn)
(* The chains of cs in which parameter n appears.                          *)
Bearers(cs, n) == {i \in DOMAIN cs : InSeq(n, Plotted(cs[i]))}
=============================================================================
