------------------------------- MODULE MCJoint -------------------------------
(* Small grids of counts and the contours they must have.                   *)
EXTENDS Joint, Json
CONSTANTS NX, NY, TOP
VARIABLE d
Init == d \in [1..(NX * NY) -> 0..TOP]
Sum(c) == QSum(c)
Some == QLt("0", Sum(d)) /\ d[1] > 0
Next == FALSE /\ UNCHANGED d
Keep == Some => PrintT("##" \o ToJson([c |-> d]))
Cell(m) == [c \in DOMAIN m |-> <<QSub(m[c], "0"), m[c]>>]
Ls == <<"0.39", "0.68", "0.86", "0.95">>
In(k) == {c \in DOMAIN d : SurelyIn(Cell(d), c, Ls[k])}
Out(k) == {c \in DOMAIN d : SurelyOut(Cell(d), c, Ls[k])}
Held(s) == QDiv(QSum([c \in DOMAIN d |-> IF c \in s THEN d[c] ELSE "0"]), Sum(d))
Turned == [c \in DOMAIN d |-> d[NX * NY + 1 - c]]
NeverBoth == Some => \A k \in 1..4 : In(k) \cap Out(k) = {}
Nested == Some => \A k \in 1..3 : In(k) \subseteq In(k + 1) /\ Out(k + 1) \subseteq Out(k)
NotTooMuch == Some => \A k \in 1..4 : QLe(Held(In(k)), Ls[k])
DenserFirst == Some => \A k \in 1..4 : \A c \in In(k), e \in DOMAIN d : d[e] > d[c] => e \in In(k)
NoTiesNoDoubt == (Some /\ \A c, e \in DOMAIN d : c # e => d[c] # d[e]) => \A k \in 1..4 : In(k) \cup Out(k) \cup {c \in DOMAIN d : QNear(QDiv(UpTo(Cell(d), c), Sum(d)), Ls[k], "1/1000", "0")} = DOMAIN d
SigmasGrow == \A two \in BOOLEAN : QLt(Level("1", two), Level("2", two)) /\ QEq(Level("0", two), "0")
OneSigma == QNear(Level("1", FALSE), "0.682689492137", "1e-10", "0") /\ QNear(Level("1", TRUE), "0.393469340287", "1e-10", "0")
=============================================================================
