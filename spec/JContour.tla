------------------------------ MODULE JContour -------------------------------
(***************************************************************************)
(* Event "contour": one chain in one joint panel.  in: lay (see Triangle), *)
(* r, c, data ([name |-> sequence]), ws, the settings, sigmas, two, cells  *)
(* (exact: <<>> or the places of the cells [i, j] |-> ...), bx, by, n;     *)
(* out: drawn (contour sets found), lines and fills: the cells inside each *)
(* level and each band; style.                                             *)
(***************************************************************************)
EXTENDS Joint, Triangle, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s

(* Masses of the cells with the given edges: surely, at most (samples that *)
(* may fall off the ends of the range).                                    *)
Weights(d, ex, ey, ends) ==
  LET nx == Len(ex) - 1  ny == Len(ey) - 1
      ax == QMinSeq(d.xs)  zx == QMaxSeq(d.xs)  ay == QMinSeq(d.ys)  zy == QMaxSeq(d.ys)
      at(v, e) == CHOOSE i \in 1..(Len(e) - 1) : QLe(e[i], v) /\ (QLt(v, e[i + 1]) \/ i = Len(e) - 1)
      cell == TLCEval([s \in DOMAIN d.xs |-> (at(d.xs[s], ex) - 1) * ny + at(d.ys[s], ey)])
      near(v, a, z) == QLe(v, QAdd(a, QDiv(QSub(z, a), 500))) \/ QLe(QSub(z, QDiv(QSub(z, a), 500)), v)
      edge(s) == ends /\ (near(d.xs[s], ax, zx) \/ near(d.ys[s], ay, zy))
  IN TLCEval([c \in 1..(nx * ny) |->
       LET most == QSum([s \in DOMAIN d.xs |-> IF cell[s] = c THEN d.ws[s] ELSE "0"])
           least == QSum([s \in DOMAIN d.xs |-> IF cell[s] = c /\ ~edge(s) THEN d.ws[s] ELSE "0"])
       IN <<QPow(least, d.power), QPow(most, d.power)>>])

Exact(m, bits, l) == \A c \in DOMAIN m : (SurelyIn(m, c, l) => SBit(bits, c)) /\ (SurelyOut(m, c, l) => ~SBit(bits, c))
ExactBand(m, bits, a, b) == \A c \in DOMAIN m :
  /\ SurelyOut(m, c, b) \/ SurelyIn(m, c, a) => ~SBit(bits, c)
  /\ SurelyIn(m, c, b) /\ SurelyOut(m, c, a) => SBit(bits, c)
Clauses(s, e) ==
  LET i == e.in  o == e.out  st == o.style
      px == Hor(i.lay, i.r, i.c)  py == Ver(i.lay, i.r, i.c)
      d == TLCEval([xs |-> i.data[px], ys |-> i.data[py], ws |-> i.ws, smooth |-> i.smooth, bins |-> i.bins, kde |-> i.kde, grid |-> i.grid, cols |-> i.cols, power |-> i.power])
      one == o.ok /\ o.drawn = 1
      ls == TLCEval(Levels(i.sigmas, i.two))
      n == Len(ls)
      exact == i.mode = "exact"  smooth == i.mode = "smooth"
      m == TLCEval(IF exact THEN Weights(d, i.ex, i.ey, ~i.grid) ELSE <<>>)
      den == TLCEval(IF smooth THEN Lattice(d, i.bx, i.by, i.n) ELSE <<>>)
      off(bits, a, b) == QOff(den, bits, i.power, a, b)
      full == one /\ Len(o.lines) = n /\ (o.filled = 0 \/ Len(o.fills) = n - 1)
  IN <<Ob("drawn", o.ok),
       Cl("contour-of-each-chain-having-both", o.ok, o.drawn = 1),
       Cl("filled-when-shaded", one, o.filled = IF i.shade /\ QLt("0", i.alpha) /\ Len(i.sigmas) > 1 THEN 1 ELSE 0),
       Cl("a-level-per-sigma", one, Len(o.lines) = n /\ (o.filled = 1 => Len(o.fills) = n - 1)),
       Cl("lines-enclose-their-cells", full /\ exact /\ ~i.labels, \A k \in 1..n : Exact(m, o.lines[k], ls[k]) \/ Exact(m, SNot(o.lines[k]), ls[k])),
       Cl("bands-cover-their-cells", full /\ exact /\ o.filled = 1, \A k \in 1..(n - 1) : ExactBand(m, o.fills[k], ls[k], ls[k + 1])),
       Cl("lines-enclose-the-probability", full /\ smooth /\ ~i.labels, \A k \in 1..n : QLe(QMin(off(o.lines[k], "0", ls[k]), off(SNot(o.lines[k]), "0", ls[k])), i.tol)),
       Cl("bands-cover-the-probability", full /\ smooth /\ o.filled = 1, \A k \in 1..(n - 1) : QLe(off(o.fills[k], ls[k], ls[k + 1]), IF QLt("0", ls[k]) THEN QMul("7/4", i.tol) ELSE i.tol)),
       Cl("line-style-of-the-chain", one, st.lw = <<i.lw>> /\ st.ls = <<i.ls>> /\ st.line_alpha = "1"),
       Cl("lines-in-shades-of-the-colour", one, \A k \in DOMAIN st.lines : Shade(st.lines[k], i.color)),
       Cl("fills-in-shades-of-the-colour", one /\ o.filled = 1, \A k \in DOMAIN st.fills : Shade(st.fills[k], i.color) /\ (QEq(i.gradient, "0") => st.fills[k] = i.color)),
       Cl("outer-levels-are-no-darker", one, /\ \A k \in 1..(Len(st.lines) - 1) : Bright(st.lines[k]) <= Bright(st.lines[k + 1])
                                             /\ \A k \in 1..(Len(st.fills) - 1) : Bright(st.fills[k]) <= Bright(st.fills[k + 1])),
       Cl("transparency-of-the-chain", one /\ o.filled = 1, QNear(st.alpha, i.alpha, "1e-9", "0")),
       Cl("order-of-drawing", one, QEq(st.z, i.z) /\ (o.filled = 1 => QLt(st.fz, st.z))),
       Cl("labelled-when-asked", one, IF i.labels THEN st.labelled /\ \A k \in DOMAIN st.labels : \E j \in 1..n : QLt("0", ls[j]) /\ Says(st.labels[k], ls[j])
                                      ELSE ~st.labelled /\ st.labels = <<>>),
       Cl("size-of-labels", one /\ i.labels, \A k \in DOMAIN st.sizes : QEq(st.sizes[k], i.size))>>
=============================================================================
