----------------------------- MODULE Multimodal -----------------------------
(* The highest-density bands of a marginal m: everything above one level.  *)
EXTENDS Summary

Near1(m) == QMul("3/2", m.h)
EndHi(m, x) == Highest(m, QSub(x, Near1(m)), QAdd(x, Near1(m)))
EndLo(m, x) == Lowest(m, QSub(x, Near1(m)), QAdd(x, Near1(m)))
Tol(m) == QAdd(QMul(m.dtol, Highest(m, m.lo, m.hi)), m.dabs)
AtEdge(m, x) == QLe(x, QAdd(m.lo, m.slop)) \/ QLe(QSub(m.hi, m.slop), x)

(* b: sequence of bounds [l, c, u].                                        *)
Ordered(b) == /\ \A i \in DOMAIN b : QLe(b[i].l, b[i].c) /\ QLe(b[i].c, b[i].u)
              /\ \A i \in DOMAIN b : i > 1 => QLt(b[i - 1].u, b[i].l)
Ends(b) == {b[i].l : i \in DOMAIN b} \cup {b[i].u : i \in DOMAIN b}
OneLevel(m, b) == LET t == Tol(m)  e == {x \in Ends(b) : ~AtEdge(m, x)} IN
  \A x, y \in e : QLe(EndLo(m, x), QAdd(EndHi(m, y), t))
(* A level between the highest density left out and the lowest taken in.   *)
LowestIn(m, b) == QMinSeq([i \in DOMAIN b |-> Lowest(m, b[i].l, b[i].u)])
Outside(m, b) == [i \in 1..(Len(b) + 1) |->
   LET from == IF i = 1 THEN m.lo ELSE b[i - 1].u  to == IF i = Len(b) + 1 THEN m.hi ELSE b[i].l
   IN IF QLt(from, to) THEN Highest(m, from, to) ELSE "0"]
HighestOut(m, b) == QMaxSeq(Outside(m, b))
Separated(m, b) == QLe(HighestOut(m, b), QAdd(LowestIn(m, b), Tol(m)))
RECURSIVE MassFrom(_, _, _, _)
MassFrom(m, b, s, i) ==
  IF i = 0 THEN "0"
  ELSE LET l == QSub(b[i].l, s)  u == QAdd(b[i].u, s) IN
       QAdd(IF QLe(u, l) THEN "0" ELSE Mass(m, l, u), MassFrom(m, b, s, i - 1))
Together(m, b, a) == /\ QLe(a, QAdd(MassFrom(m, b, m.slop, Len(b)), QAdd(m.eps, "1/200")))
                     /\ QLe(QSub(MassFrom(m, b, QSub("0", m.slop), Len(b)), QAdd(m.eps, "1/200")), a)
Centres(m, b) == \A i \in DOMAIN b :
   QLe(QSub(QSub(Highest(m, b[i].l, b[i].u), QMul(m.dtol, Highest(m, b[i].l, b[i].u))), m.dabs), EndHi(m, b[i].c))
(* The valleys between bands really are below the level.                   *)
BandsOf(m, a, b) == Ordered(b) /\ OneLevel(m, b) /\ Separated(m, b) /\ Together(m, b, a) /\ Centres(m, b)
(* One interval suffices: nothing in it lies clearly below its ends.       *)
OneBand(m, l, u) == LET t == QMul("3/2", Tol(m)) IN
   QLe(QMin(IF AtEdge(m, l) THEN EndHi(m, u) ELSE EndLo(m, l), IF AtEdge(m, u) THEN EndHi(m, l) ELSE EndLo(m, u)), QAdd(Lowest(m, l, u), t))
=============================================================================
