------------------------------- MODULE Output --------------------------------
(* What plotting leaves behind: files, and matplotlib's global text         *)
(* settings.                                                                *)
(*                                                                          *)
(* State: the settings in force (rc: usetex, and the font families in       *)
(* order), for each consumer those in force when it was made and its        *)
(* configuration (a setting of "none" leaves matplotlib's alone), and the   *)
(* files written so far.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets

NoRc == [tex |-> "none", fam |-> <<>>]
Default == [tex |-> "false", serif |-> "false"]
Fresh(rc, n) == [rc |-> rc, made |-> [c \in 1..n |-> NoRc], conf |-> [c \in 1..n |-> Default], files |-> {}]

(* The settings while a consumer with configuration k plots.                *)
Follow(rc, k) ==
  [tex |-> IF k.tex = "none" THEN rc.tex ELSE k.tex,
   fam |-> IF k.serif = "none" THEN rc.fam ELSE IF k.serif = "true" THEN <<"serif">> ELSE <<"sans-serif">>]

After(s, o) ==
  CASE o.op = "make"    -> [s EXCEPT !.made[o.c] = s.rc, !.conf[o.c] = Default]
    [] o.op = "config"  -> [s EXCEPT !.conf[o.c] = [tex |-> o.tex, serif |-> o.serif]]
    [] o.op = "user"    -> [s EXCEPT !.rc = [tex |-> o.tex, fam |-> o.fam]]
    [] o.op = "append"  -> [s EXCEPT !.rc.fam = Append(@, o.fam[1])]
    [] o.op = "draw"    -> [s EXCEPT !.rc = Follow(s.rc, s.conf[o.c]), !.files = @ \cup o.names]
    [] o.op = "table"   -> [s EXCEPT !.files = @ \cup o.names]
    [] o.op = "restore" -> [s EXCEPT !.rc = s.made[o.c]]
=============================================================================
