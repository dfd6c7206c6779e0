------------------------------- MODULE Relate -------------------------------
(***************************************************************************)
(* What one observation of a chain must be, given another observation of   *)
(* the same chain after each parameter p was replaced by a_p * x + b_p     *)
(* (m[p] = [a, b], a # 0).  Numbers are compared up to tol * span, the     *)
(* span being that of the observed axis; identity maps give plain equality.*)
(***************************************************************************)
EXTENDS Clause

Put(mp, v) == QAdd(QMul(mp.a, v), mp.b)
Pos(mp) == QLt("0", mp.a)

(* Value v seen, expected from u under mp, within d.                        *)
At(v, u, mp, d) == IF u.k # "num" THEN v.k = u.k ELSE v.k = "num" /\ QNear(v.v, Put(mp, u.v), "0", d)
Close(v, u, f, rel, d) == IF u.k # "num" THEN v.k = u.k ELSE v.k = "num" /\ QNear(v.v, QMul(f, u.v), rel, d)

(* A bound <<lower, centre, upper>>; a reflection exchanges the limits.     *)
BoundAt(v, u, mp, d) == IF Pos(mp) THEN \A i \in 1..3 : At(v[i], u[i], mp, d)
                        ELSE At(v[1], u[3], mp, d) /\ At(v[2], u[2], mp, d) /\ At(v[3], u[1], mp, d)
SummaryAt(s, t, mp, d) ==
  /\ s.k = t.k /\ Len(s.v) = Len(t.v)
  /\ \A j \in DOMAIN s.v : BoundAt(s.v[j], t.v[IF Pos(mp) THEN j ELSE Len(t.v) + 1 - j], mp, d)

ExtentAt(v, u, mp, d) == IF Pos(mp) THEN At(v[1], u[1], mp, d) /\ At(v[2], u[2], mp, d)
                         ELSE At(v[1], u[2], mp, d) /\ At(v[2], u[1], mp, d)
(* Heights scale by 1/|a| (raised to the chain's power).                    *)
CurveAt(c, u, mp, h, d, rel, habs) ==
  /\ c.n = u.n /\ Len(c.x) = Len(u.x)
  /\ \A k \in DOMAIN c.x : /\ At(c.x[k], u.x[k], mp, d)
                           /\ Close(c.y[k], u.y[k], h, rel, habs)
BoxAt(b, u, mx, my, dx, dy) == /\ Len(b) = Len(u)
                               /\ b # <<>> => ExtentAt(<<b[1], b[2]>>, <<u[1], u[2]>>, mx, dx)
                                              /\ ExtentAt(<<b[3], b[4]>>, <<u[3], u[4]>>, my, dy)
=============================================================================
