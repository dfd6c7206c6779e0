---------------------------- MODULE MCDiagnostics ---------------------------
(* Every small set of walkers of one parameter.                             *)
EXTENDS Diagnostics, FiniteSets, Json
CONSTANTS WALKERS, STEPS, VALS
VARIABLE d
Init == \E m \in 2..WALKERS, n \in 2..STEPS : d \in [1..m -> [1..n -> 0..(VALS - 1)]] /\ \E j \in 1..m : \E i \in 1..n : d[j][i] # d[j][1]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
Map(f(_)) == [j \in DOMAIN d |-> [i \in DOMAIN d[j] |-> f(d[j][i])]]
SameR(o) == QNear(R(d), R(o), "1e-40", "0")
Affine == SameR(Map(LAMBDA v : 7 - 3 * v))
WalkerOrder == SameR([j \in DOMAIN d |-> d[Len(d) + 1 - j]])
StepOrder == SameR([j \in DOMAIN d |-> [i \in DOMAIN d[j] |-> d[j][Len(d[j]) + 1 - i]]])
AgreeingWalkers == (\A j \in DOMAIN d : QEq(Mean(d[j]), Mean(d[1]))) <=> QNear(QMul(R(d), R(d)), QDiv(Len(d[1]) - 1, Len(d[1])), "1e-40", "0")
Apart == LET far == [j \in DOMAIN d |-> IF j = 1 THEN [i \in DOMAIN d[j] |-> d[j][i] + 9] ELSE d[j]] IN QLt(R(d), R(far))
=============================================================================
