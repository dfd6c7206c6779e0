---------------------------- MODULE MCAcceptance ----------------------------
(* Every chain that is at most MAXEDITS single edits away from a good one.  *)
EXTENDS Acceptance, Integers, Sequences, TLC, Json
CONSTANTS MAXEDITS

C(n, vs) == [name |-> n, text |-> TRUE, vals |-> vs]
Good == [cols |-> <<C("x", <<"1", "5/2", "-3", "4">>), C("y", <<"7", "7", "9", "1/2">>),
                    C("weight", <<"1", "2", "1/4", "3">>), C("log_posterior", <<"-1", "-2", "-1/2", "-9">>)>>,
         wcol |-> "weight", pcol |-> "log_posterior", color |-> "none", multimodal |-> FALSE, stat |-> "none",
         set |-> <<>>, shift |-> FALSE]

Bad == {"nan", "inf", "-inf", "0", "-1"}
NoRows(d) == [d EXCEPT !.cols = [i \in DOMAIN @ |-> [@[i] EXCEPT !.vals = <<>>]]]
Edits ==
  [k : {"cell"}, c : 1..4, r : 1..4, v : Bad]
  \cup [k : {"drop"}, c : 1..4, r : {0}, v : {"-"}]
  \cup [k : {"notext"}, c : 1..4, r : {0}, v : {"-"}]
  \cup [k : {"cut"}, c : {0}, r : 0..3, v : {"-"}]
  \cup [k : {"wcol", "pcol", "color"}, c : {0}, r : {0}, v : {"x", "absent", "weight"}]
  \cup [k : {"stat"}, c : {0}, r : {0}, v : {"max", "mean", "cumulative", "max_central", "hdi"}]
  \cup [k : {"multimodal", "shift"}, c : {0}, r : {0}, v : {"-"}]
  \cup [k : {"summary_area"}, c : {0}, r : {0}, v : {"0", "1", "-1/8", "9/8", "1/2"}]
  \cup [k : {"marker_size"}, c : {0}, r : {0}, v : {"1", "1/2", "0", "-1"}]
  \cup [k : {"walkers"}, c : {0}, r : {0}, v : {"-2", "0", "1", "2", "3", "4", "8"}]
  \cup [k : {"num_free_params", "num_eff_data_points"}, c : {0}, r : {0}, v : {"0", "-1", "4"}]
  \cup [k : {"histogram_relative_height"}, c : {0}, r : {0}, v : {"0", "-1/8", "2"}]
Edit(d, e) ==
  CASE e.k = "cell" -> IF e.c \in DOMAIN d.cols /\ e.r \in DOMAIN d.cols[e.c].vals THEN [d EXCEPT !.cols[e.c].vals[e.r] = e.v] ELSE d
    [] e.k = "drop" -> [d EXCEPT !.cols = [i \in 1..(Len(@) - 1) |-> IF i < e.c THEN @[i] ELSE @[i + 1]]]
    [] e.k = "notext" -> IF e.c \in DOMAIN d.cols THEN [d EXCEPT !.cols[e.c].text = FALSE] ELSE d
    [] e.k = "cut" -> [d EXCEPT !.cols = [i \in DOMAIN @ |-> [@[i] EXCEPT !.vals = IF Len(@) > e.r THEN SubSeq(@, 1, e.r) ELSE @]]]
    [] e.k = "wcol" -> [d EXCEPT !.wcol = e.v]
    [] e.k = "pcol" -> [d EXCEPT !.pcol = e.v]
    [] e.k = "color" -> [d EXCEPT !.color = e.v]
    [] e.k = "stat" -> [d EXCEPT !.stat = e.v]
    [] e.k = "multimodal" -> [d EXCEPT !.multimodal = TRUE]
    [] e.k = "shift" -> [d EXCEPT !.shift = TRUE]
    [] OTHER -> [d EXCEPT !.set = SelectSeq(@, LAMBDA p : p[1] # e.k) \o <<<<e.k, e.v>>>>]

VARIABLES d, n
vars == <<d, n>>
Init == d = Good /\ n = 0
Next == /\ n < MAXEDITS /\ n' = n + 1
        /\ \E e \in Edits : (e.k = "drop" => Len(d.cols) > 1) /\ d' = Edit(d, e) /\ d' # d
View == d
Emit == PrintT("##" \o ToJson([d |-> d', n |-> n']))

(* Acceptance is decided and a non-finite value anywhere is never accepted. *)
Total == Accepts(d) \in BOOLEAN
NoBadCell == Accepts(d) => \A i \in DOMAIN d.cols : \A r \in DOMAIN d.cols[i].vals : Finite(d.cols[i].vals[r])
PositiveWeights == Accepts(d) => \A r \in 1..Rows(d) : QLt("0", WeightsOf(d)[r])
ShiftCentres == (Accepts(d) /\ d.shift) => \A i \in DOMAIN d.cols :
   IsParam(d, d.cols[i].name) => QEq(QDot(Carried(d, d.cols[i]), WeightsOf(d)), "0")
=============================================================================
