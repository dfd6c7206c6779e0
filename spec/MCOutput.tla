------------------------------ MODULE MCOutput -------------------------------
(* Every history of one or two consumers, the user changing matplotlib's    *)
(* settings underneath them.  (Drawing with usetex on needs a LaTeX, so     *)
(* only plots that need no text layout are drawn then.)                     *)
EXTENDS Output, TLC, Json
CONSTANTS CONS, FAMS, TEXS, SETS, DEEP
VARIABLES s, h
Fams == {<<f>> : f \in FAMS}
Rcs == [tex : TEXS, fam : Fams]
Light == {"walks", "distributions"}
Files == {{}, {"f1"}, {"f1", "f2"}}
Ops == [op : {"make", "restore"}, c : 1..CONS]
       \cup [op : {"config"}, c : 1..CONS, tex : SETS, serif : SETS]
       \cup [op : {"user"}, tex : TEXS, fam : Fams]
       \cup [op : {"append"}, fam : {<<"cursive">>}]
       \cup [op : {"draw"}, c : 1..CONS, kind : {"plot", "walks"}, names : Files]
       \cup [op : {"table"}, c : 1..CONS, names : {{"t1"}}]
Made(o) == "c" \in DOMAIN o /\ o.op # "make" => s.made[o.c] # NoRc
Fits(o) == /\ Made(o)
           /\ (o.op = "append" => Len(s.rc.fam) < 2)
           /\ (o.op = "make" => s.made[o.c] = NoRc)
           /\ (o.op = "draw" => (Follow(s.rc, s.conf[o.c]).tex = "false" \/ (o.kind \in Light /\ o.names = {})))
Init == \E rc \in Rcs : s = Fresh(rc, CONS) /\ h = <<[op |-> "user", tex |-> rc.tex, fam |-> rc.fam]>>
Next == \E o \in Ops : Fits(o) /\ Len(h) < DEEP /\ s' = After(s, o) /\ h' = Append(h, o)
View == [s EXCEPT !.files = {}]
Emit == PrintT("##" \o ToJson(h'))
Last == h'[Len(h')]
OnlyAsked == [][s'.files \ s.files \subseteq (IF "names" \in DOMAIN Last THEN Last.names ELSE {}) /\ s.files \subseteq s'.files]_<<s, h>>
Configured == [][Last.op = "draw" => LET k == s.conf[Last.c] IN /\ (k.tex # "none" => s'.rc.tex = k.tex)
                                                                /\ (k.serif = "true" => s'.rc.fam = <<"serif">>)
                                                                /\ (k.serif = "none" => s'.rc.fam = s.rc.fam)]_<<s, h>>
Returned == [][Last.op = "restore" => s'.rc = s.made[Last.c]]_<<s, h>>
Kept == [][\A c \in 1..CONS : s.made[c] # NoRc => s'.made[c] = s.made[c]]_<<s, h>>
OthersAlone == [][Last.op \in {"table", "make", "config"} => s'.rc = s.rc]_<<s, h>>
=============================================================================
