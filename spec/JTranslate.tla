------------------------------ MODULE JTranslate -----------------------------
(***************************************************************************)
(* Event "translate".  in: by ("step" / "name"), names, raw, thin,         *)
(* discard, filter, extra (columns the settings add), settings, name.      *)
(* out: ok, err, table {column: values}, weights, settings, name.          *)
(* raw as in Translate; for "name" it is a record.                         *)
(***************************************************************************)
EXTENDS Translate, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Clauses(s, e) ==
  LET i == e.in  o == e.out
      step == i.by = "step"
      mixed == Mixed(i.filter)
      want == IF step THEN Range(i.names) ELSE KeptNames(Range(i.names), i.filter)
      rows == TLCEval(IF step THEN StepRows(i.raw, i.thin, i.discard) ELSE <<>>)
      col(p) == IF step THEN LET k == CHOOSE j \in DOMAIN i.names : i.names[j] = p IN TLCEval([r \in DOMAIN rows |-> rows[r][k]]) ELSE Column(i.raw[p])
  IN <<Cl("mixed-filter-refused", mixed, ~o.ok /\ o.err = "ValueError"),
       Cl("accepted", ~mixed, o.ok),
       Cl("exactly-the-kept-variables", ~mixed /\ o.ok, DOMAIN o.table = want),
       Cl("every-kept-draw-once", ~mixed /\ o.ok, \A p \in want : Len(o.table[p]) = Len(col(p))),
       Cl("each-value-in-its-row", ~mixed /\ o.ok, \A p \in want : LET c == col(p) IN \A r \in DOMAIN c : o.table[p][r] = c[r]),
       Cl("draws-count-alike", ~mixed /\ o.ok, Len(o.weights) = (LET p == CHOOSE x \in want : TRUE IN Len(col(p))) /\ \A r \in DOMAIN o.weights : o.weights[r] = o.weights[1]),
       Cl("settings-of-the-chain", ~mixed /\ o.ok, o.settings = i.settings),
       Cl("named", ~mixed /\ o.ok, o.name = i.name)>>
=============================================================================
