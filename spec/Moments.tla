------------------------------- MODULE Moments ------------------------------
(***************************************************************************)
(* Weighted second moments of a sample (xs, ys sequences, ws weights).     *)
(***************************************************************************)
EXTENDS Exact, Integers, Sequences, TLC

Mean(xs, ws) == QDiv(QDot(xs, ws), QSum(ws))
(* What n - 1 becomes when the rows carry weights of unknown scale.        *)
Freedom(ws) == LET t == QSum(ws) IN QSub(t, QDiv(QDot(ws, ws), t))
Cov(xs, ys, ws) == QDiv(QDot3(QShift(xs, Mean(xs, ws)), QShift(ys, Mean(ys, ws)), ws), Freedom(ws))
CovM(cols, ws) == LET dev == TLCEval([i \in DOMAIN cols |-> QShift(cols[i], Mean(cols[i], ws))])  f == TLCEval(Freedom(ws)) IN
                  TLCEval([i \in DOMAIN cols |-> [j \in DOMAIN cols |-> QDiv(QDot3(dev[i], dev[j], ws), f)]])
Sigmas(m) == TLCEval([i \in DOMAIN m |-> QSqrt(m[i][i])])
CorrM(m) == LET s == Sigmas(m) IN [i \in DOMAIN m |-> [j \in DOMAIN m |-> QDiv(m[i][j], QMul(s[i], s[j]))]]
=============================================================================
