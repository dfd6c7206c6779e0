-------------------------------- MODULE Joint --------------------------------
(***************************************************************************)
(* Contours of the joint density of two parameters: the region of k sigma  *)
(* is the densest one holding the probability of k sigma.                  *)
(***************************************************************************)
EXTENDS Kde, Marginal

Level(s, two) == IF two THEN QSub("1", QExp(QDiv(QMul(s, s), "-2"))) ELSE QSub(QMul("2", QPhi(s)), "1")
Levels(z, two) == [k \in DOMAIN z |-> Level(z[k], two)]

(* ---- cells of known mass: m[i, j] = <<least, most>> ---- *)
Most(m) == QSum([c \in 1..Len(m) |-> m[c][2]])
Least(m) == QSum([c \in 1..Len(m) |-> m[c][1]])
(* What is at least as dense as cell c, and what surely is.                *)
UpTo(m, c) == QSum([e \in DOMAIN m |-> IF e = c \/ QLe(m[c][1], m[e][2]) THEN m[e][2] ELSE "0"])
Before(m, c) == QSum([e \in DOMAIN m |-> IF e = c \/ QLt(m[c][2], m[e][1]) THEN m[e][1] ELSE "0"])
SurelyIn(m, c, l) == QLt(QDiv(UpTo(m, c), Least(m)), QMul(l, "0.97"))
SurelyOut(m, c, l) == QLt(QMul(l, "1.03"), QDiv(Before(m, c), Most(m)))

(* ---- samples ---- *)
(* Where samples lie: d = [xs, ys, ws, smooth, bins, kde, grid, cols].     *)
Side(d, v) == [xs |-> v, ws |-> d.ws, ps |-> v, cols |-> d.cols, grid |-> d.grid, smooth |-> d.smooth, bins |-> d.bins, kde |-> "none"]
Width(d, b) == QMul(b.h, QSqrt(QAdd(d.smooth * d.smooth, "1/6")))
Box(b) == <<b.lo, b.hi>>
Bandwidth(d) == LET k == [pts |-> [i \in DOMAIN d.xs |-> <<d.xs[i], d.ys[i]>>], ws |-> d.ws, factor |-> d.kde] IN Ready(k)
(* The density on a fine lattice over the box given.                       *)
Lattice(d, bx, by, n) ==
  LET mx == Build(Side(d, d.xs), FALSE)  my == Build(Side(d, d.ys), FALSE) IN
  IF d.kde # "none" THEN LET z == Bandwidth(d) IN QJointKde(d.xs, d.ys, d.ws, <<z.inv[1, 1], z.inv[1, 2], z.inv[2, 2]>>, z.var, "3", 4, bx, by, n)
  ELSE QJoint(d.xs, d.ys, d.ws, Width(d, mx), Width(d, my), bx, by, n)

(* ---- style ---- *)
(* Colour c is b made lighter or darker: the channels keep their order     *)
(* and, unless a channel may have been clamped, their ratios.              *)
Chan(c) == <<SHex(c, 2), SHex(c, 4), SHex(c, 6)>>
Bright(c) == Chan(c)[1] + Chan(c)[2] + Chan(c)[3]
Shade(c, b) ==
  LET x == Chan(c)  y == Chan(b) IN
  \A i, j \in 1..3 : /\ y[i] <= y[j] => x[i] <= x[j]
                     /\ y[1] < 100 /\ y[2] < 100 /\ y[3] < 100 => QLe(QAbs(QSub(QMul(x[i], y[j]), QMul(x[j], y[i]))), 2 * (1 + y[i] + y[j]))
(* A label of v percent is right for the level l.                          *)
Says(v, l) == QLe(QAbs(QSub(v, QMul("100", l))), IF QLt(l, "0.9909") THEN "0.51" ELSE "0.06")
=============================================================================
