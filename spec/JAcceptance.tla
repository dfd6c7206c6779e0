----------------------------- MODULE JAcceptance ----------------------------
EXTENDS Acceptance, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s

SameCol(d, c, o) == /\ o.name = c.name
                    /\ Len(o.vals) = Len(c.vals)
                    /\ LET want == Carried(d, c) IN
                       \A r \in DOMAIN want :
                         IF d.shift /\ IsParam(d, c.name)
                         THEN QNear(o.vals[r], want[r], "1e-9", QMul("1e-12", QAdd(d.scale, "1")))
                         ELSE QEq(o.vals[r], want[r])
Clauses(s, e) ==
  LET d == e.in  acc == Accepts(d)  o == e.out
      want == IF HasCol(d, d.wcol) THEN d.cols ELSE Append(d.cols, [name |-> d.wcol, text |-> TRUE, vals |-> WeightsOf(d)])
  IN <<Ob("accepted-exactly-when-well-formed", o.ok = acc),
       Cl("refused-as-invalid-input", ~o.ok, "ValueError" \in Range(o.kinds)),
       Cl("rows-and-columns-carried-in-order", acc,
          Len(o.cols) = Len(want) /\ \A i \in DOMAIN want : SameCol(d, want[i], o.cols[i])),
       Cl("weights-of-the-chain", acc, Len(o.weights) = Rows(d) /\ \A r \in DOMAIN o.weights : QEq(o.weights[r], WeightsOf(d)[r])),
       Cl("default-statistic", acc, o.stat = StatOf(d)),
       Ob("user-frame-untouched", o.frameKept)>>
=============================================================================
