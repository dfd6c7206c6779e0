-------------------------------- MODULE JText -------------------------------
(* One event: the text of a bound or of a list of bounds.                  *)
EXTENDS Text, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Clauses(s, e) ==
  LET d == e.in  o == e.out  p == o.parsed
      single == d.kind = "one" \/ Len(d.bounds) = 1
      want == Shown(d.bounds)
  IN <<Ob("gives-text", o.ok),
       Cl("empty-exactly-without-limits", o.ok, (o.text = "") = (want = <<>>)),
       Cl("one-entry-per-bound", o.ok /\ want # <<>>, Len(p.entries) = Len(want) /\ p.junk = ""),
       Cl("entry-states-the-bound", o.ok /\ want # <<>>, \A i \in DOMAIN want : Entry(p.entries[i], want[i], single)),
       Cl("numbered-in-order", o.ok /\ want # <<>>, p.numbers = IF single THEN <<>> ELSE [i \in DOMAIN want |-> i]),
       Cl("label-as-given", o.ok /\ want # <<>>, p.label = d.label),
       Cl("wrapped-as-asked", o.ok /\ want # <<>>, p.wrapped = d.wrap)>>
=============================================================================
