------------------------------- MODULE Extents -------------------------------
(***************************************************************************)
(* The limits of the axis of a parameter.  A chain is [drawn, body (shown  *)
(* by contours or a cloud), grid, xs, ws, point (<<>> or <<value>>)]; xs   *)
(* is empty where the chain lacks the parameter.                           *)
(***************************************************************************)
EXTENDS Exact, TLC, FiniteSets

Least(c) == c.least
Most(c) == c.most
\* a chain with what depends on its samples alone worked out
Chain0(drawn, body, grid, xs, ws, point) ==
  IF xs = <<>> THEN [drawn |-> drawn, body |-> body, grid |-> grid, xs |-> xs, ws |-> ws, point |-> point]
  ELSE [drawn |-> drawn, body |-> body, grid |-> grid, xs |-> xs, ws |-> ws, point |-> point, least |-> QMinSeq(xs), most |-> QMaxSeq(xs), total |-> QSum(ws)]
Below(c, v) == IF QLe(v, Least(c)) THEN "0" ELSE QSub(c.total, QMass(c.xs, c.ws, v, Most(c)))
Above(c, v) == IF QLe(Most(c), v) THEN "0" ELSE QSub(c.total, QMass(c.xs, c.ws, Least(c), v))
Range0(c) == QSub(Most(c), Least(c))
(* Limits are found to a two-thousandth of the range.                      *)
Grain(c) == QDiv(Range0(c), "1990")
(* Next to nothing at an end may be left out, and of a handful of distinct *)
(* values a light outermost one.                                           *)
Stray(c, low) ==
  LET g == QDiv(Range0(c), "2000")
      a == IF low THEN Least(c) ELSE QSub(Most(c), g)
      b == IF low THEN QAdd(Least(c), g) ELSE Most(c)
      m == QDiv(QMass(c.xs, c.ws, a, b), c.total)
  IN IF QLe(m, "12e-4") \/ (QLe(m, "4/25") /\ Cardinality({c.xs[i] : i \in DOMAIN c.xs}) <= 21) THEN m ELSE "0"
(* tail: the share that may lie outside of each limit.                     *)
Covers(c, lo, hi, tail) ==
  LET below == QSub(lo, Grain(c))
      above == QAdd(hi, Grain(c))
      few == QMul(QMul(tail, "1.001"), c.total)
  IN IF c.grid THEN QLe(lo, Least(c)) /\ QLe(Most(c), hi)
     ELSE /\ QLe(below, Least(c)) \/ QLe(Below(c, below), few) \/ QLe(Below(c, below), QAdd(few, QMul(c.total, Stray(c, TRUE))))
          /\ QLe(Most(c), above) \/ QLe(Above(c, above), few) \/ QLe(Above(c, above), QAdd(few, QMul(c.total, Stray(c, FALSE))))
Having(cs) == {i \in DOMAIN cs : cs[i].drawn /\ cs[i].xs # <<>>}
Lows(cs) == {i \in Having(cs) : cs[i].body}
Points(cs) == {i \in Having(cs) : cs[i].point # <<>>}
AtLeast(cs, v) == \/ \E i \in Lows(cs) : QLe(Least(cs[i]), v)
                  \/ \E i \in Points(cs) : QLe(cs[i].point[1], v)
AtMost(cs, v) == \/ \E i \in Lows(cs) : QLe(v, Most(cs[i]))
                 \/ \E i \in Points(cs) : QLe(v, cs[i].point[1])
(* Automatic limits.                                                       *)
Fits(cs, lo, hi, tail) ==
  /\ \A i \in Lows(cs) : Covers(cs[i], lo, hi, tail)
  /\ \A i \in Points(cs) : QLe(lo, cs[i].point[1]) /\ QLe(cs[i].point[1], hi)
Tight(cs, lo, hi) == AtLeast(cs, lo) /\ AtMost(cs, hi)
=============================================================================
