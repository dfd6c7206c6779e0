----------------------------- MODULE MCCriteria -----------------------------
(* Every small set of chains and table request, and what the criteria mean *)
(* on them.                                                                *)
EXTENDS Criteria, TLC, Json
CONSTANTS NCHAINS
Lps == {<<>>, <<"-3">>, <<"-3", "-1">>, <<"-1", "-4", "-1">>}
Rows == [n \in 0..3 |-> SubSeq(<<<<"0", "1">>, <<"2", "5">>, <<"1", "2">>>>, 1, n)]
Wts == [n \in 0..3 |-> SubSeq(<<"1", "2", "1">>, 1, n)]
Ch(i) == {[name |-> <<"A", "B", "C">>[i], lps |-> l, ws |-> Wts[Len(l)], free |-> f, data |-> n, rows |-> Rows[Len(l)]] :
           l \in Lps, f \in {"none", "0", "2"}, n \in {"none", "20"}}
VARIABLE d
Init == \E k \in 1..NCHAINS : d \in [cs : {s \in [1..k -> UNION {Ch(i) : i \in 1..k}] : \A i \in 1..k : s[i].name = <<"A", "B", "C">>[i]},
                                     cols : {<<"aic", "bic", "dic">>}]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson([cs |-> [i \in DOMAIN d.cs |-> [has |-> d.cs[i].lps # <<>>, free |-> d.cs[i].free, data |-> d.cs[i].data]]]))
The(S) == CHOOSE x \in S : TRUE
(* More parameters never help at the same best fit; a weight-free chain of one
   sample has no complexity; nothing about the others matters.              *)
Penalty == \A i, j \in DOMAIN d.cs : \A cr \in {"aic", "bic"} :
   (Has(d.cs[i], cr) /\ Has(d.cs[j], cr) /\ Best(d.cs[i]) = Best(d.cs[j]) /\ QLe(d.cs[i].free, d.cs[j].free)) =>
       QLe(The(Values(d.cs[i], cr)), The(Values(d.cs[j], cr)))
Single == \A i \in DOMAIN d.cs : Len(d.cs[i].lps) = 1 => \A v \in DICs(d.cs[i]) : QEq(v, Deviance(d.cs[i], 1))
Subset == \A i \in DOMAIN d.cs : (Has(d.cs[i], "aic") = Has(d.cs[i], "bic")) /\ (Has(d.cs[i], "aic") => Has(d.cs[i], "dic"))
OneBest == \A cr \in {"aic", "bic", "dic"} : LET w == With(d.cs, cr)  p == [i \in DOMAIN w |-> The(Values(w[i], cr))] IN
   w # <<>> => /\ Explains([i \in DOMAIN w |-> {p[i]}], [i \in DOMAIN w |-> w[i].name], [i \in DOMAIN w |-> QSub(p[i], QMinSeq(p))], "1e-12")
               /\ \E i \in DOMAIN w : QEq(QSub(p[i], QMinSeq(p)), "0")
=============================================================================
