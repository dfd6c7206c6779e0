----------------------------- MODULE MCTriangle -----------------------------
(* All layouts up to MAXN parameters, with every way chains may share them. *)
EXTENDS Triangle, FiniteSets, TLC, Json
CONSTANTS MAXN, NCHAINS
Names == <<"p", "q", "r", "s", "t">>
VARIABLE d
Sub(n) == SUBSET {Names[i] : i \in 1..n}
Init == \E n \in 1..MAXN : d \in [cols : {SubSeq(Names, 1, n)}, hists : BOOLEAN, flip : BOOLEAN,
                                  log : Sub(n), fixed : Sub(n), have : [1..NCHAINS -> Sub(n) \ {{}}]]
        /\ (~d.hists => n > 1)
        /\ UNION {d.have[i] : i \in 1..NCHAINS} = {Names[i] : i \in 1..n}
Next == FALSE /\ UNCHANGED d
Listed(S) == SelectSeq(Names, LAMBDA x : x \in S)
Emit == PrintT("##" \o ToJson([cols |-> d.cols, hists |-> d.hists, flip |-> d.flip, log |-> Listed(d.log), fixed |-> Listed(d.fixed),
                               have |-> [i \in 1..NCHAINS |-> Listed(d.have[i])]]))
P == {d.cols[i] : i \in DOMAIN d.cols}
Joint == {x \in Places(d) : Kind(d, x[1], x[2]) = "joint"}
EveryPairOnce == \A a, b \in P : a # b => Cardinality({x \in Joint : Params(d, x[1], x[2]) = {a, b}}) = 1
Ordered == \A x \in Joint : \E i, j \in DOMAIN d.cols : i < j /\ Hor(d, x[1], x[2]) = d.cols[i] /\ Ver(d, x[1], x[2]) = d.cols[j]
EveryMarginalOnce == \A a \in P : Cardinality({x \in Places(d) : Kind(d, x[1], x[2]) \in {"marginal", "flipped"} /\ Params(d, x[1], x[2]) = {a}})
                                   = IF d.hists THEN 1 ELSE 0
ColumnsShareX == \A x, y \in Places(d) : x[2] = y[2] /\ Hor(d, x[1], x[2]) # "-" /\ Hor(d, y[1], y[2]) # "-" => Hor(d, x[1], x[2]) = Hor(d, y[1], y[2])
EveryParameterNamed == \A a \in P : \E x \in Places(d) : ShownX(d, x[1], x[2]) = a \/ ShownY(d, x[1], x[2]) = a
OnlyTwoFlip == (\E x \in Places(d) : Kind(d, x[1], x[2]) = "flipped") => Len(d.cols) = 2
=============================================================================
