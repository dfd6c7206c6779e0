------------------------------- MODULE MCWalk --------------------------------
(* Every small walk figure.                                                 *)
EXTENDS Walk, Json
CONSTANTS CHAINS, WINDOWS, LENGTHS
VARIABLE d
One == [has : SUBSET {"p", "q"} \ {{}}, post : BOOLEAN, n : LENGTHS]
Init == \E k \in 1..CHAINS : d \in [chains : [1..k -> One], post : BOOLEAN, weights : BOOLEAN, log : BOOLEAN, window : WINDOWS]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
V(i, n, f) == [j \in 1..n |-> (100 * i + 7 * j * j) * f]
C(i) == LET z == d.chains[i] IN [data |-> [x \in z.has |-> V(i, z.n, IF x = "p" THEN 1 ELSE -1)], ws |-> [j \in 1..z.n |-> j], post |-> IF z.post THEN V(i, z.n, -2) ELSE <<>>]
Cs == [i \in DOMAIN d.chains |-> C(i)]
Ask == [post |-> d.post, weights |-> d.weights, log |-> d.log, window |-> d.window]
Rs == Rows(Cs, <<"q", "p">>, Ask)
Lead == 2 + (IF d.weights THEN 1 ELSE 0) + (IF d.post /\ \E i \in DOMAIN d.chains : d.chains[i].post THEN 1 ELSE 0)
RowCount == Len(Rs) = Lead
PostFirst == \A i, j \in DOMAIN Rs : Rs[i].k = "post" /\ i # j => i < j
BestIsZero == \A i \in DOMAIN Cs : HasPost(Cs[i]) => QEq(QMaxSeq(Steps(Cs[i], [k |-> "post", p |-> "-"], Ask)), "0")
OwnLength == \A i \in DOMAIN Cs, r \in DOMAIN Rs : In(Cs[i], Rs[r]) => Len(Steps(Cs[i], Rs[r], Ask)) = d.chains[i].n
Window == d.window
MeanOfOne == \A i \in DOMAIN Cs : \A k \in 1..d.chains[i].n : QEq(Mean(Cs[i].ws, 1, k, 0), Cs[i].ws[k])
MeanOfLine == Window > 0 /\ Window % 2 = 1 => \A i \in DOMAIN Cs : \A k \in Core(d.chains[i].n, Window) : QEq(Mean(Cs[i].ws, Window, k, Window \div 2), k)
CoreIsWhole == Window > 0 => \A n \in LENGTHS : \A k \in Core(n, Window) : \E h \in Halves(Window) : Whole(n, Window, k, h)
LongEnough == Window > 0 => \A n \in LENGTHS : n > Window => Core(n, Window) # {}
=============================================================================
