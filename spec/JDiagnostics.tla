----------------------------- MODULE JDiagnostics ---------------------------
(***************************************************************************)
(* Events: "scan" - the thresholds between which the verdict of one chain  *)
(* changes (fails at lo, passes at hi); "many" - the verdicts on several   *)
(* chains against their own.  in.data[p][j] is walker j of parameter p.    *)
(***************************************************************************)
EXTENDS Diagnostics, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
Worst(e) == QMaxSeq([p \in DOMAIN e.in.data |-> Excess(e.in.data[p])])
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
PValue(e) == LET z == [p \in DOMAIN e.in.data |-> [j \in DOMAIN e.in.data[p] |-> Geweke(e.in.data[p][j], e.in.first, e.in.last)]]
             IN Normality(TLCEval(Flat(z)))
Scan(e) ==
  LET o == e.out  walkers == Len(e.in.data[1])
      refuse == e.in.kind = "gelman" /\ walkers < 2
      given == e.in.kind = "gelman" \/ \A p \in DOMAIN e.in.data : \A j \in DOMAIN e.in.data[p] : Defined(e.in.data[p][j], e.in.first, e.in.last)
      v == TLCEval(IF e.in.kind = "gelman" THEN Worst(e) ELSE PValue(e))
      \* Gelman-Rubin passes above the worst excess, Geweke below the p-value
      a == QSub(QMul(v, "0.999999"), "1e-7")  b == QAdd(QMul(v, "1.000001"), "1e-7")
  IN <<Ob(e.in.kind \o "-refused-exactly-for-one-walker", o.ok = ~refuse),
       Cl(e.in.kind \o "-verdict-changes-at-the-statistic", ~refuse /\ o.ok /\ given, QLe(a, o.hi) /\ QLe(o.lo, b)),
       Cl(e.in.kind \o "-named-after-the-chain", ~refuse /\ o.ok, o.names = <<e.in.name>>),
       Cl(e.in.kind \o "-overall-is-the-only-verdict", ~refuse /\ o.ok, o.agree)>>
Many(e) == LET o == e.out IN
  <<Ob(e.in.kind \o "-many-given", o.ok),
    Cl(e.in.kind \o "-each-under-its-name", o.ok, {o.results[i][1] : i \in DOMAIN o.results} = {e.in.own[i][1] : i \in DOMAIN e.in.own}),
    Cl(e.in.kind \o "-each-its-own-verdict", o.ok, \A i \in DOMAIN o.results : \E j \in DOMAIN e.in.own : o.results[i] = e.in.own[j]),
    Cl(e.in.kind \o "-overall-is-all", o.ok, o.passed = (\A i \in DOMAIN e.in.own : e.in.own[i][2]) /\ o.truth = o.passed)>>
Clauses(s, e) == IF e.op = "scan" THEN Scan(e) ELSE Many(e)
=============================================================================
