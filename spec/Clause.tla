------------------------------- MODULE Clause -------------------------------
(* Named obligations with total verdicts: "yes", "no", "undef" or "skip".  *)
EXTENDS Exact

Cl(name, on, ok) ==
  LET g == Guarded(on)
  IN [n |-> name, v |-> IF g = "yes" THEN Guarded(ok) ELSE IF g = "no" THEN "skip" ELSE "undef"]

Ob(name, ok) == [n |-> name, v |-> Guarded(ok)]

(* Recorded values: numbers are [k |-> "num", v |-> exact rational], and   *)
(* [k |-> "none"], [k |-> "nan"], [k |-> "inf"], [k |-> "-inf"] otherwise. *)
IsNum(x) == x.k = "num"
Same(x, y) == x.k = y.k /\ (x.k = "num" => QEq(x.v, y.v))
Near(x, y, rel, abs) == x.k = "num" /\ y.k = "num" /\ QNear(x.v, y.v, rel, abs)
Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Ok(e) == e.out.ok
=============================================================================
