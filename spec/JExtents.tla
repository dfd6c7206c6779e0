------------------------------ MODULE JExtents -------------------------------
(***************************************************************************)
(* Event "axes": all axes of a figure.  in: lay (see Layout), chains       *)
(* ([drawn, body, grid, ws, data: {p: values}, points: {p: value}]),       *)
(* explicit ([p, lo, hi]), tail; out: axes [r, c, x, y].                   *)
(***************************************************************************)
EXTENDS Extents, Layout, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Names(f) == DOMAIN f
Of(chains, p) == TLCEval([i \in DOMAIN chains |-> LET c == chains[i] IN
  Chain0(c.drawn, c.body, c.grid, IF p \in DOMAIN c.data THEN c.data[p] ELSE <<>>, c.ws, IF p \in DOMAIN c.points THEN <<c.points[p]>> ELSE <<>>)])
Said(ex, p) == \E i \in DOMAIN ex : ex[i][1] = p
Say(ex, p) == LET i == CHOOSE j \in DOMAIN ex : ex[j][1] = p IN <<ex[i][2], ex[i][3]>>
Clauses(s, e) ==
  LET i == e.in  o == e.out
      shown(a) == Shows(i.lay, a.r, a.c)
      axes == {<<shown(o.axes[k])[1], o.axes[k].x>> : k \in DOMAIN o.axes} \cup {<<shown(o.axes[k])[2], o.axes[k].y>> : k \in DOMAIN o.axes}
      all == TLCEval({x \in axes : x[1] # "-"})
      ps == TLCEval({x[1] : x \in all})
      cs == TLCEval([p \in ps |-> Of(i.chains, p)])
      auto == {x \in all : ~Said(i.explicit, x[1])}
  IN <<Ob("drawn", o.ok),
       Cl("every-parameter-has-an-axis", o.ok /\ i.axes, \A k \in DOMAIN i.lay.cols : i.lay.cols[k] \in ps),
       Cl("explicit-limits-are-obeyed", o.ok, \A x \in all \ auto : LET w == Say(i.explicit, x[1]) IN QEq(x[2][1], w[1]) /\ QEq(x[2][2], w[2])),
       Cl("automatic-limits-show-every-chain", o.ok, \A x \in auto : Fits(cs[x[1]], x[2][1], x[2][2], i.tail)),
       Cl("automatic-limits-are-no-wider", o.ok, \A x \in auto : Tight(cs[x[1]], x[2][1], x[2][2])),
       Cl("same-limits-everywhere", o.ok, \A x, y \in all : x[1] = y[1] => QEq(x[2][1], y[2][1]) /\ QEq(x[2][2], y[2][2]))>>
=============================================================================
