------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The contents of the summary table.  d = [chains |-> sequence of         *)
(* [name, params (sequence), drawn], pick (sequence of chain names, <<>>   *)
(* for all), columns (<<>> for all), blind (<<"*">> for all),          *)
(* transpose, labels (function as pairs)].                                 *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets

InSeq(x, q) == \E i \in DOMAIN q : q[i] = x
Chain(d, n) == d.chains[CHOOSE i \in DOMAIN d.chains : d.chains[i].name = n]
Chosen(d) == LET all == IF d.pick = <<>> THEN d.chains ELSE [i \in DOMAIN d.pick |-> Chain(d, d.pick[i])]
             IN SelectSeq(all, LAMBDA c : c.drawn)
RECURSIVE Seen(_)
Seen(cs) == IF cs = <<>> THEN <<>>
            ELSE LET b == Seen(SubSeq(cs, 1, Len(cs) - 1)) IN b \o SelectSeq(cs[Len(cs)].params, LAMBDA p : ~InSeq(p, b))
Asked(d) == IF d.columns # <<>> THEN d.columns ELSE Seen(Chosen(d))
Open(d) == IF d.blind = <<"*">> THEN <<>> ELSE SelectSeq(Asked(d), LAMBDA p : ~InSeq(p, d.blind))
(* A cell: the chain and parameter it reports, or the blank fill.          *)
Cell(c, p) == IF InSeq(p, c.params) THEN <<c.name, p>> ELSE <<>>
Grid(d) == LET cs == Chosen(d)  ps == Open(d) IN
   IF d.transpose THEN [r \in DOMAIN ps |-> [k \in DOMAIN cs |-> Cell(cs[k], ps[r])]]
   ELSE [r \in DOMAIN cs |-> [k \in DOMAIN ps |-> Cell(cs[r], ps[k])]]
Label(d, p) == IF \E i \in DOMAIN d.labels : d.labels[i][1] = p
               THEN LET i == CHOOSE i \in DOMAIN d.labels : d.labels[i][1] = p IN d.labels[i][2] ELSE p
Names(d) == [i \in DOMAIN Chosen(d) |-> Chosen(d)[i].name]
Labels(d) == [i \in DOMAIN Open(d) |-> Label(d, Open(d)[i])]
Header(d) == IF d.transpose THEN <<"Parameter">> \o Names(d) ELSE <<"Model">> \o Labels(d)
First(d) == IF d.transpose THEN Labels(d) ELSE Names(d)
=============================================================================
