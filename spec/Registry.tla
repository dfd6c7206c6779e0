------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The consumer: an ordered collection of named chains, with the truths,   *)
(* the plot configuration and the override that were set on it.            *)
(* A chain object is [name, obj]: obj identifies the samples it carries.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty == [chains |-> <<>>, truths |-> <<>>, config |-> "default", override |-> "none"]

Names(s) == [i \in DOMAIN s.chains |-> s.chains[i].name]
Has(s, n) == \E i \in DOMAIN s.chains : s.chains[i].name = n
At(s, n) == s.chains[CHOOSE i \in DOMAIN s.chains : s.chains[i].name = n]

(* Is operation o accepted in state s?                                     *)
Accepts(s, o) ==
  CASE o.op \in {"add", "marker"} -> ~Has(s, o.name)
    [] o.op \in {"remove", "removeObj"} -> Has(s, o.name)
    [] OTHER -> TRUE

(* The state after an accepted operation; a refused one changes nothing.   *)
Apply(s, o) ==
  IF ~Accepts(s, o) THEN s
  ELSE CASE o.op \in {"add", "marker"} ->
              [s EXCEPT !.chains = Append(@, [name |-> o.name, obj |-> o.obj])]
         [] o.op \in {"remove", "removeObj"} ->
              [s EXCEPT !.chains = SelectSeq(@, LAMBDA c : c.name # o.name)]
         [] o.op = "truth" -> [s EXCEPT !.truths = Append(@, o.obj)]
         [] o.op = "config" -> [s EXCEPT !.config = o.obj]
         [] o.op = "override" -> [s EXCEPT !.override = o.obj]
         [] OTHER -> s

(* Properties of the collection.                                           *)
UniqueNames(s) == \A i, j \in DOMAIN s.chains :
                    s.chains[i].name = s.chains[j].name => i = j
=============================================================================
