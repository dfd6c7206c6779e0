------------------------------ MODULE JPurity -------------------------------
(* Judge of interleaved queries and state changes.                         *)
EXTENDS Purity, Clause, TraceRun

Start(tr) == [cons |-> <<Empty, Empty>>, memo |-> {}, objects |-> {}]
(* "fresh" answers come from a new consumer built straight into the state. *)
Asked(s, e) == s.cons[e.in.c]
Isq(e) == e.op \in {"query", "fresh"}
Step(s, e) ==
  [cons |-> PApply(s.cons, e.in),
   memo |-> IF Isq(e) THEN Remember(s.memo, Asked(s, e), e.in.name, e.out.answer) ELSE s.memo,
   objects |-> s.objects \cup Range(e.out.objects)]

Clauses(s, e) ==
  <<Cl("accepted-state-change", ~Isq(e), e.out.ok),
    Cl("answer-depends-only-on-the-state", Isq(e), Consistent(s.memo, Asked(s, e), e.in.name, e.out.answer)),
    Ob("user-objects-unchanged",
       \A i \in DOMAIN e.out.objects : \A o \in s.objects : o.name = e.out.objects[i].name => o = e.out.objects[i]),
    Cl("caller-arguments-unchanged", Isq(e), e.out.argsAfter = e.out.argsBefore)>>
=============================================================================
