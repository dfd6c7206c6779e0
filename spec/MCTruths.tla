------------------------------ MODULE MCTruths ------------------------------
(* All sets of truths over a few parameters, in all kinds of plot.          *)
EXTENDS Truths, Triangle, FiniteSets, TLC, Json
CONSTANTS TRUTHS, PARAMS
Names == <<"p", "q", "r">>
Vals == <<"10", "20", "30">>
VARIABLE d
Kinds == {"triangle", "flipped", "lower", "distributions", "summary", "errorbar", "walks"}
Init == \E n \in 1..TRUTHS : d \in [kind : Kinds, truths : [1..n -> [has : SUBSET (1..PARAMS), marker : {"", "o"}]]]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson([kind |-> d.kind, truths |-> [i \in DOMAIN d.truths |-> [has |-> [j \in 1..PARAMS |-> j \in d.truths[i].has], marker |-> d.truths[i].marker]]]))
Truth(i) == [loc |-> SelectSeq([j \in 1..PARAMS |-> <<IF j \in d.truths[i].has THEN Names[j] ELSE "", Vals[j]>>], LAMBDA v : v[1] # ""), marker |-> d.truths[i].marker,
             color |-> i, alpha |-> 1, z |-> 100, ls |-> "-", lw |-> 1, size |-> 5, edge |-> "", filled |-> TRUE, elw |-> 1]
Ts == [i \in DOMAIN d.truths |-> Truth(i)]
Cols == SubSeq(Names, 1, PARAMS)
Lay == [cols |-> Cols, hists |-> d.kind # "lower", flip |-> d.kind = "flipped"]
Panels == IF d.kind \in {"triangle", "flipped", "lower"} THEN {<<Hor(Lay, x[1], x[2]), Ver(Lay, x[1], x[2])>> : x \in Places(Lay)}
          ELSE IF d.kind = "walks" THEN {Axes("walks", Cols, 4, 1, r, 1) : r \in 1..(PARAMS + 1)}
          ELSE IF d.kind = "distributions" THEN {Axes("distributions", Cols, 2, 0, x[1], x[2]) : x \in (1..2) \X (1..2)}
          ELSE {Axes("summary", Cols, 4, 1, 1, c) : c \in 1..(PARAMS + 1)}
Shown(i, a) == Items(Ts[i], a[1], a[2])
NothingUngiven == \A i \in DOMAIN Ts : \A a \in Panels : (\A j \in d.truths[i].has : Names[j] \notin {a[1], a[2]}) => Shown(i, a) = <<>>
GivenIsShown == \A i \in DOMAIN Ts : \A a \in Panels : \A j \in d.truths[i].has : Names[j] \in {a[1], a[2]} =>
                   \E k \in DOMAIN Shown(i, a) : Vals[j] \in {Shown(i, a)[k].x, Shown(i, a)[k].y}
MarkersNeedTwo == \A i \in DOMAIN Ts : \A a \in Panels : (\E k \in DOMAIN Shown(i, a) : Shown(i, a)[k].k = "m") => "-" \notin {a[1], a[2]} /\ Len(Shown(i, a)) = 1
EveryParameterHasAPanel == (d.kind # "lower" \/ PARAMS > 1) => \A j \in 1..PARAMS : \E a \in Panels : Names[j] \in {a[1], a[2]}
=============================================================================
