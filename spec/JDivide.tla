------------------------------- MODULE JDivide ------------------------------
(* Event "divide".  in: rows (sequence of rows of exact values), columns,   *)
(* walkers, grid, name, set (settings as pairs).  out.parts: sequence of    *)
(* [name, columns, rows, set, color, walkers].                              *)
EXTENDS Divide, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Clauses(s, e) ==
  LET o == e.out  i == e.in  may == Dividable(Len(i.rows), i.walkers, i.grid)
      go == may /\ o.ok
      ps == Parts(i.rows, i.walkers)
      shape == go /\ Len(o.parts) = i.walkers
      All(P(_, _)) == \A k \in 1..i.walkers : P(k, o.parts[k])
  IN <<Ob("refused-exactly-when-it-must", o.ok = may),
       Cl("one-chain-per-walker", go, shape),
       Cl("consecutive-blocks", shape, All(LAMBDA k, p : Len(p.rows) = Len(ps[k]) /\ \A r \in DOMAIN p.rows : p.rows[r] = ps[k][r])),
       Cl("all-columns", shape, All(LAMBDA k, p : p.columns = i.columns)),
       Cl("walker-names", shape, All(LAMBDA k, p : p.name = i.name \o " Walker " \o ToString(k - 1))),
       Cl("settings-kept", shape, All(LAMBDA k, p : p.set = i.set)),
       Cl("no-colour-and-one-walker", shape, All(LAMBDA k, p : p.color = "none" /\ p.walkers = 1)),
       Cl("parent-untouched", o.ok, o.parent = "same"),
       Cl("behave-like-any-other-chain", shape /\ o.used.done, o.used.ok /\ o.used.parts = o.used.plain)>>
=============================================================================
