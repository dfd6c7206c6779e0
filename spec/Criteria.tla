------------------------------ MODULE Criteria ------------------------------
(***************************************************************************)
(* Model comparison.  A chain is [name, lps (log posteriors, <<>> when it  *)
(* has none), ws, free, data ("none" or a number), rows (parameter values  *)
(* of each sample, in column order)].                                      *)
(***************************************************************************)
EXTENDS Clause, FiniteSets, TLC

Has(c, crit) == /\ c.lps # <<>>
                /\ (crit # "dic" => c.free # "none" /\ c.data # "none")
With(cs, crit) == SelectSeq(cs, LAMBDA c : Has(c, crit))
Best(c) == QMaxSeq(c.lps)

AIC(c) == QSub(QMul("2", c.free), QMul("2", Best(c)))
AICc(c) == QAdd(AIC(c), QDiv(QMul("2", QMul(c.free, QAdd(c.free, "1"))), QSub(QSub(c.data, c.free), "1")))
BIC(c) == QSub(QMul(c.free, QLn(c.data)), QMul("2", Best(c)))

Deviance(c, i) == QMul("-2", c.lps[i])
WMean(ws, xs) == QDiv(QDot(ws, xs), QSum(ws))
MeanDeviance(c) == QMul("-2", WMean(c.ws, c.lps))
Column(c, k) == [i \in DOMAIN c.rows |-> c.rows[i][k]]
Centre(c) == [k \in DOMAIN c.rows[1] |-> WMean(c.ws, Column(c, k))]
Distances(c) == LET m == TLCEval(Centre(c)) IN
  [i \in DOMAIN c.rows |-> QSum([k \in DOMAIN m |-> LET r == QSub(c.rows[i][k], m[k]) IN QMul(r, r)])]
(* The samples nearest the weighted mean (several when equally near).       *)
Nearest(c) == LET ds == TLCEval(Distances(c))  lo == QMul(QMinSeq(ds), "1.000000001") IN {i \in DOMAIN ds : QLe(ds[i], lo)}
(* DIC = D(mean) + 2 p_D with p_D = mean D - D(mean).                       *)
DICs(c) == LET md == TLCEval(MeanDeviance(c)) IN {QSub(QMul("2", md), Deviance(c, i)) : i \in Nearest(c)}

Values(c, crit) == IF crit = "aic" THEN {AICc(c)} ELSE IF crit = "bic" THEN {BIC(c)} ELSE DICs(c)

(* got: name -> reported value.  Some choice of values explains them all.   *)
Explains(vs, names, got, tol) ==
  LET vals == TLCEval(vs) IN
  \E p \in {v : v \in [DOMAIN names -> UNION {vals[i] : i \in DOMAIN names}]} :
     /\ \A i \in DOMAIN names : p[i] \in vals[i]
     /\ LET low == QMinSeq(p) IN \A i \in DOMAIN names : QNear(got[i], QSub(p[i], low), tol, QMul(tol, QAdd("1", QMaxSeq([j \in DOMAIN names |-> QAbs(p[j])]))))

(* The table: which rows, and in what order.                                *)
Listed(cs, crits) == SelectSeq(cs, LAMBDA c : \E i \in DOMAIN crits : Has(c, crits[i]))
Ordered(vals, down) == \A i \in 1..(Len(vals) - 1) : IF down THEN QLe(vals[i + 1], vals[i]) ELSE QLe(vals[i], vals[i + 1])
=============================================================================
