-------------------------------- MODULE JWalk --------------------------------
(***************************************************************************)
(* Event "walk".  in: chains ([data, ws, post, rgb, n]), cols, labels      *)
(* ({p: label}), ask.  out: ok, rows: [label, x, dots [rgb, xs, ys],       *)
(* lines [rgb, xs, ys]].                                                   *)
(* Event "long": one very long chain.  in: n; out: ok, xs, ys: [count,     *)
(* first, strides] where the value of each step is its number.             *)
(***************************************************************************)
EXTENDS Walk, Colour, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s
EqSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : QNear(a[i], b[i], "1e-12", "1e-12")
Index(x) == QInt(QAdd(x, "1"))
LineOk(s, w, l) ==
  /\ Core(Len(s), w) \subseteq {Index(l.xs[j]) : j \in DOMAIN l.xs}
  /\ LET tol == TLCEval(QMul("1e-9", QMax(QAbs(QMaxSeq(s)), QAbs(QMinSeq(s))))) IN
     \E h \in Halves(w) : \A j \in DOMAIN l.xs : LET k == Index(l.xs[j]) IN Whole(Len(s), w, k, h) /\ QNear(l.ys[j], Mean(s, w, k, h), "1e-9", tol)
Clauses(s, e) ==
  LET i == e.in  o == e.out  w == i.ask.window
      rows == TLCEval(Rows(i.chains, i.cols, i.ask))
      ok == o.ok /\ Len(o.rows) = Len(rows)
      In2(r) == {k \in DOMAIN i.chains : In(i.chains[k], rows[r])}
      st == TLCEval([r \in DOMAIN rows |-> [k \in In2(r) |-> Steps(i.chains[k], rows[r], i.ask)]])
      shown == {k \in DOMAIN i.chains : \E r \in DOMAIN rows : k \in In2(r)}
      Dots(r, k) == {j \in DOMAIN o.rows[r].dots : o.rows[r].dots[j].rgb = i.chains[k].rgb}
      Dot(r, k) == o.rows[r].dots[CHOOSE j \in Dots(r, k) : TRUE]
      Lines(r, k) == {j \in DOMAIN o.rows[r].lines : o.rows[r].lines[j].xs # <<>> /\ Scaled(i.chains[k].rgb, "1/2", o.rows[r].lines[j].rgb)}
      each(P(_, _)) == \A r \in DOMAIN rows : \A k \in In2(r) : P(r, k)
  IN IF e.op = "long" THEN
       <<Ob("drawn", o.ok),
         Cl("nothing-left-out-when-short", o.ok /\ i.n <= 100000, o.ys.count = i.n),
         Cl("evenly-thinned", o.ok, o.ys.first = 0 /\ Len(o.ys.strides) = 1 /\ o.ys.count * o.ys.strides[1] >= i.n /\ (o.ys.count - 1) * o.ys.strides[1] < i.n),
         Cl("many-steps-left", o.ok, o.ys.count >= (IF i.n < 50000 THEN i.n ELSE 50000)),
         Cl("in-order", o.ok, o.xs.first = 0 /\ Len(o.xs.strides) = 1 /\ o.xs.strides[1] > 0)>>
     ELSE
       <<Ob("drawn", o.ok),
         Cl("a-row-each", o.ok, Len(o.rows) = Len(rows)),
         Cl("rows-labelled", ok, \A r \in DOMAIN rows : rows[r].k = "param" => o.rows[r].label = i.labels[rows[r].p]),
         Cl("only-chains-having-it", ok, \A r \in DOMAIN rows : Len(o.rows[r].dots) = Cardinality(In2(r))),
         Cl("own-colour", ok, each(LAMBDA r, k : Cardinality(Dots(r, k)) = 1)),
         Cl("every-step-in-order", ok, each(LAMBDA r, k : Dots(r, k) # {} => Len(Dot(r, k).xs) = i.chains[k].n /\ \A j \in DOMAIN Dot(r, k).xs : QEq(Dot(r, k).xs[j], j - 1))),
         Cl("values-of-the-chain", ok, each(LAMBDA r, k : Dots(r, k) # {} => EqSeq(Dot(r, k).ys, st[r][k]))),
         Cl("no-overlay-unless-asked", ok /\ w = 0, \A r \in DOMAIN rows : o.rows[r].lines = <<>>),
         Cl("running-mean", ok /\ w > 0, each(LAMBDA r, k : LET ls == Lines(r, k) IN
              IF Core(i.chains[k].n, w) = {} THEN TRUE
              ELSE Cardinality(ls) = 1 /\ \A j \in ls : LineOk(st[r][k], w, o.rows[r].lines[j]))),
         Cl("axis-covers-the-longest", ok, LET m == Longest({i.chains[k].n : k \in shown}) IN \A r \in DOMAIN rows : QLe(o.rows[r].x[1], "0") /\ QLe(m - 1, o.rows[r].x[2]) /\ QLe(o.rows[r].x[2], m))>>
=============================================================================
