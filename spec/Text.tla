-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* How a bound is printed.  A printed entry t is [form |-> "pm" or "sup",  *)
(* c, u, l |-> printed numerals, dec |-> <<digits after the point of each>>*)
(* exp |-> power of ten outside the bracket].                              *)
(***************************************************************************)
EXTENDS Exact, FiniteSets

Complete(b) == b.l # "none" /\ b.c # "none" /\ b.u # "none"
Up(b) == QSub(b.u, b.c)
Low(b) == QSub(b.c, b.l)
(* The number that sets the precision: the smaller non-zero error.         *)
Setter(b) == IF ~QEq(Up(b), "0") /\ ~QEq(Low(b), "0") THEN QMin(QAbs(Up(b)), QAbs(Low(b)))
             ELSE IF ~QEq(Up(b), "0") THEN QAbs(Up(b)) ELSE IF ~QEq(Low(b), "0") THEN QAbs(Low(b))
             ELSE IF QEq(b.c, "0") THEN "1" ELSE QAbs(b.c)
(* Two significant digits of it; its magnitude as computed in floating     *)
(* point may fall on either side of an exact power of ten.                 *)
Units(b) == {QPow10(QMag(QMul(Setter(b), f)) - 1) : f \in {"0.9999999999999", "1.0000000000001"}}
Scale(t) == QPow10(t.exp)
LastDigit(t, i) == QMul(Scale(t), QPow10(0 - t.dec[i]))
Shows(t, text, exact, unit, slack) == QNear(QMul(text, Scale(t)), exact, "1e-13", QAdd(QMul(unit, "0.5000000001"), slack))
NoMinusZero(s) == ~(SStarts("-", s) /\ QEq(s, "0"))
States(t, b) == \E unit \in Units(b) :
   LET slack == QMul("1e-14", QMax(QAbs(b.c), QMax(QAbs(b.l), QAbs(b.u)))) IN
   /\ Shows(t, t.c, b.c, unit, slack) /\ Shows(t, t.u, Up(b), unit, slack) /\ Shows(t, t.l, Low(b), unit, slack)
   /\ QLe(LastDigit(t, 1), unit) /\ QLe(QDiv(unit, "10"), LastDigit(t, 1))
SameDecimals(t) == t.dec[1] = t.dec[2] /\ t.dec[2] = t.dec[3]
Form(t, single) == t.form = IF single /\ t.u = t.l THEN "pm" ELSE "sup"
Entry(t, b, single) == States(t, b) /\ SameDecimals(t) /\ Form(t, single) /\ NoMinusZero(t.c) /\ NoMinusZero(t.u) /\ NoMinusZero(t.l)

Shown(bs) == SelectSeq(bs, Complete)
=============================================================================
