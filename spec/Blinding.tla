------------------------------ MODULE Blinding ------------------------------
(***************************************************************************)
(* Which texts of a figure are about which parameters.  A figure of n      *)
(* parameters is a sequence of panels [x, y, t]: the parameter on the      *)
(* horizontal axis, on the vertical axis and in the title ("-" for none).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InSeq(x, q) == \E i \in DOMAIN q : q[i] = x
Panel(x, y, t) == [x |-> x, y |-> y, t |-> t]
Nothing == Panel("-", "-", "-")
Triangle(ps, hists, flip) ==
  LET n == IF hists THEN Len(ps) ELSE Len(ps) - 1
      row(i) == IF hists THEN ps[i] ELSE ps[i + 1]
      fl(i) == flip /\ hists /\ Len(ps) = 2 /\ i = 2
  IN [k \in 1..(n * n) |-> LET i == ((k - 1) \div n) + 1  j == ((k - 1) % n) + 1 IN
        IF i < j THEN Nothing
        ELSE IF hists /\ i = j THEN (IF fl(i) THEN Panel("-", ps[i], ps[i]) ELSE Panel(ps[i], "-", ps[i]))
        ELSE Panel(ps[j], row(i), "-")]
Walks(ps, extra) == [k \in 1..(extra + Len(ps)) |-> IF k <= extra THEN Nothing ELSE Panel("-", ps[k - extra], "-")]
Distributions(ps) == [k \in DOMAIN ps |-> Panel(ps[k], "-", ps[k])]
Summary(ps, rows) == [k \in 1..(rows * (Len(ps) + 1)) |-> LET j == (k - 1) % (Len(ps) + 1) IN
                        IF j = 0 THEN Nothing ELSE Panel(ps[j], "-", "-")]
Figure(f) == CASE f.kind = "plot" -> Triangle(f.params, f.hists, f.flip)
               [] f.kind = "walks" -> Walks(f.params, f.extra)
               [] f.kind = "distributions" -> Distributions(f.params)
               [] f.kind = "summary" -> Summary(f.params, f.rows)
Hidden(f, p) == p # "-" /\ (f.blind = <<"*">> \/ InSeq(p, f.blind))
(* A text of panel k that may state a value: its two axes and its title.   *)
MayTell(f, k) == [x |-> ~Hidden(f, Figure(f)[k].x), y |-> ~Hidden(f, Figure(f)[k].y), t |-> ~Hidden(f, Figure(f)[k].t)]
=============================================================================
