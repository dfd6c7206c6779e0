------------------------------- MODULE MCText -------------------------------
(* The printed form in whole numbers: a triple rounded to the tens of ...  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS CENTRES, ERRORS
VARIABLE b
Init == b \in [c : CENTRES, u : ERRORS, l : ERRORS]
Next == FALSE /\ UNCHANGED b
Emit == PrintT("##" \o ToJson(b))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Mag(_)
Mag(x) == IF x < 10 THEN 0 ELSE 1 + Mag(x \div 10)
RECURSIVE Ten(_)
Ten(k) == IF k <= 0 THEN 1 ELSE 10 * Ten(k - 1)
Setter(x) == IF x.u # 0 /\ x.l # 0 THEN (IF x.u < x.l THEN x.u ELSE x.l) ELSE IF x.u # 0 THEN x.u ELSE IF x.l # 0 THEN x.l ELSE Abs(x.c)
Unit(x) == Ten(Mag(Setter(x)) - 1)
(* Both ways to round a half.                                              *)
Rounds(x, unit) == {k * unit : k \in {n \in ((x \div unit) - 1)..((x \div unit) + 2) : 2 * Abs(x - n * unit) <= unit}}
Texts(x) == {[c |-> c, u |-> u, l |-> l] : c \in Rounds(x.c, Unit(x)), u \in Rounds(x.u, Unit(x)), l \in Rounds(x.l, Unit(x))}
Wide == Setter(b) >= 10   \* at least two digits to keep
HalfUnit == \A t \in Texts(b) : 2 * Abs(t.c - b.c) <= Unit(b) /\ 2 * Abs(t.u - b.u) <= Unit(b) /\ 2 * Abs(t.l - b.l) <= Unit(b)
NeverEmpty == Texts(b) # {}
ErrorsSurvive == Wide => \A t \in Texts(b) : (b.u # 0 => t.u > 0) /\ (b.l # 0 => t.l > 0)
TwoDigits == Wide /\ Setter(b) \in {b.u, b.l} => \A t \in Texts(b) : Setter(t) \div Unit(b) \in 10..100
TenTimes == Wide => Texts([c |-> 10 * b.c, u |-> 10 * b.u, l |-> 10 * b.l]) = {[c |-> 10 * t.c, u |-> 10 * t.u, l |-> 10 * t.l] : t \in Texts(b)}
Mirror == Texts([c |-> 0 - b.c, u |-> b.l, l |-> b.u]) = {[c |-> 0 - t.c, u |-> t.l, l |-> t.u] : t \in Texts(b)}
=============================================================================
