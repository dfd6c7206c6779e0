------------------------------ MODULE JColours ------------------------------
(* Judge of the colours seen in every kind of figure.                      *)
EXTENDS Settings, Clause, TraceRun

Start(tr) == SInit
Step(s, e) == IF e.op = "palette" THEN s ELSE SApply(s, e.in)

Idx(s, n) == CHOOSE i \in DOMAIN s.chains : s.chains[i].name = n
Expect(s, n, pal) == Resolve(s, Idx(s, n), "color", pal)
IsMarker(s, n) == ValueOf(s.chains[Idx(s, n)].user, "kind") = "marker"
Shown(s, kind, look) == {n \in look : kind \in {"legend", "point", "walk", "summary-name"} \/ ~IsMarker(s, n)}

KindOk(s, e, k) ==
  /\ \A j \in DOMAIN k.items : k.items[j].color = Expect(s, k.items[j].name, e.in.palette)
Complete(s, e, k) ==
  LET seen == {k.items[j].name : j \in DOMAIN k.items}
      want == Shown(s, k.kind, Range(e.in.look))
  IN IF k.kind = "point" THEN seen = {n \in want : IsMarker(s, n)} ELSE seen = want

Clauses(s, e) ==
  CASE e.op = "palette" ->
         <<Ob("first-88-distinct", \A i, j \in 1..88 : i # j => e.out.seq[i] # e.out.seq[j]),
           Ob("palette-repeats", \A i \in DOMAIN e.out.seq : e.out.seq[i] = e.out.seq[((i - 1) % 88) + 1]),
           Ob("palette-restarts", e.out.again = SubSeq(e.out.seq, 1, Len(e.out.again)))>>
    [] e.op = "see" ->
         [j \in DOMAIN e.out.kinds |->
            Ob("colour-in-" \o e.out.kinds[j].kind, KindOk(s, e, e.out.kinds[j]))]
         \o [j \in DOMAIN e.out.kinds |->
            Ob("every-chain-coloured-in-" \o e.out.kinds[j].kind, Complete(s, e, e.out.kinds[j]))]
         \o <<Ob("contours-take-the-colour-of-their-chain", e.out.contours = e.out.contoursRef)>>
    [] OTHER -> <<Ob("accepted", e.out.ok)>>
=============================================================================
