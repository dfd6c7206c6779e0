------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Queries are observations: they change no consumer, and their answer is  *)
(* a function of the consumer's current state alone.  Built on Registry.   *)
(***************************************************************************)
EXTENDS Registry

Mutators == {"add", "marker", "remove", "truth", "config", "override"}
PApply(cons, o) == IF o.op \in Mutators THEN [cons EXCEPT ![o.c] = Apply(@, o)] ELSE cons

(* What has been answered so far: records [state, query, answer].          *)
Consistent(memo, st, q, a) == \A m \in memo : (m.s = st /\ m.q = q) => m.a = a
Remember(memo, st, q, a) == memo \cup {[s |-> st, q |-> q, a |-> a]}
=============================================================================
