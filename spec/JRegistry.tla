----------------------------- MODULE JRegistry ------------------------------
(* Judge of recorded consumer histories.                                   *)
EXTENDS Registry, Clause, TraceRun

Start(tr) == <<Empty, Empty>>
Step(s, e) == [s EXCEPT ![e.in.c] = Apply(@, e.in)]

Objs(s) == [i \in DOMAIN s.chains |-> <<s.chains[i].name, s.chains[i].obj>>]

Clauses(s, e) ==
  LET n == Step(s, e)
      acc == Accepts(s[e.in.c], e.in)
  IN <<Ob("accepted-exactly-when-well-formed", e.out.ok = acc),
       Cl("accepted-call-returns-the-consumer", acc, e.out.self),
       Ob("names-in-insertion-order",
          \A c \in 1..2 : e.out.seen[c].names = Names(n[c])),
       Ob("every-name-maps-to-the-chain-added-under-it",
          \A c \in 1..2 : e.out.seen[c].lookup = Objs(n[c])),
       Ob("absent-names-are-refused",
          \A c \in 1..2 : \A i \in DOMAIN e.out.seen[c].absent :
             LET a == e.out.seen[c].absent[i] IN a.found = Has(n[c], a.name)),
       Ob("configuration-is-the-one-last-set",
          \A c \in 1..2 : e.out.seen[c].config = n[c].config),
       Cl("summaries-follow-the-collection", e.out.deep,
          \A c \in 1..2 : e.out.seen[c].summary = Names(n[c])),
       Cl("max-posteriors-follow-the-collection", e.out.deep,
          \A c \in 1..2 : e.out.seen[c].maxpost = Names(n[c])),
       Cl("comparison-follows-the-collection", e.out.deep,
          \A c \in 1..2 : e.out.seen[c].dic = Names(n[c])),
       Cl("diagnostics-follow-the-collection", e.out.deep,
          \A c \in 1..2 : Len(n[c].chains) > 0 => e.out.seen[c].diag = Names(n[c])),
       Cl("tables-follow-the-collection", e.out.deep,
          \A c \in 1..2 : Len(n[c].chains) > 0 => e.out.seen[c].rows = Names(n[c])),
       Cl("plots-follow-the-collection", e.out.deep,
          \A c \in 1..2 : Len(n[c].chains) > 0 => e.out.seen[c].drawn = Names(n[c])),
       Cl("truths-follow-the-collection", e.out.deep,
          \A c \in 1..2 : Len(n[c].chains) > 0 => e.out.seen[c].truths = n[c].truths),
       Cl("override-follows-the-collection", e.out.deep,
          \A c \in 1..2 : Len(n[c].chains) > 0 => e.out.seen[c].override = <<n[c].override>>)>>
=============================================================================
