------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Trace validation.  The file named by VERIF_TRACE holds one recorded     *)
(* behaviour of the real ChainConsumer per line: [id, ev], ev a sequence   *)
(* of events.  A judge module supplies                                     *)
(*   TStart(tr)      the specification's initial state for the trace,      *)
(*   TStep(s, e)     the state the specification reaches by event e,       *)
(*   TClauses(s, e)  the named obligations event e must meet in state s.   *)
(* TLC walks every event of every trace; each obligation that does not     *)
(* hold (or that cannot even be evaluated: "undef") is printed.            *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, IOUtils, Sequences, FiniteSets

CONSTANTS TStart(_), TStep(_, _), TClauses(_, _)

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
NT == Len(Traces)
NW == 8

VARIABLES vT, vK, vS
trVars == <<vT, vK, vS>>

(* A run that failed outside the observed calls, or never came back.       *)
Lost(e) == e.op \in {"crash", "timeout"}

Report(e) ==
  LET cl == IF Lost(e) THEN <<[n |-> "run-completes", v |-> "no"]>> ELSE TClauses(vS, e) IN
  LET bad == SelectSeq(cl, LAMBDA c : c.v # "yes" /\ c.v # "skip")
      hit == SelectSeq(cl, LAMBDA c : c.v # "skip")
  IN  PrintT("@@" \o ToJson([t |-> vT, k |-> vK + 1,
                             b |-> [i \in DOMAIN bad |-> <<bad[i].n, bad[i].v>>],
                             h |-> [i \in DOMAIN hit |-> hit[i].n]]))

TrInit == vT = 0 /\ vK = 0 /\ vS = "none"

TrFork == /\ vT = 0
          /\ vT' \in 1..(IF NT < NW THEN NT ELSE NW)
          /\ vK' = 0
          /\ vS' = TStart(Traces[vT'])

TrEvent == /\ vT > 0
           /\ vK < Len(Traces[vT].ev)
           /\ Report(Traces[vT].ev[vK + 1])
           /\ vK' = vK + 1
           /\ vT' = vT
           /\ vS' = LET e == Traces[vT].ev[vK + 1] IN IF Lost(e) THEN vS ELSE TStep(vS, e)

TrNextTrace == /\ vT > 0
               /\ vK = Len(Traces[vT].ev)
               /\ vT + NW <= NT
               /\ vT' = vT + NW
               /\ vK' = 0
               /\ vS' = TStart(Traces[vT'])

TrNext == TrFork \/ TrEvent \/ TrNextTrace
=============================================================================
