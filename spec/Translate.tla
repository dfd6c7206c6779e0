------------------------------ MODULE Translate ------------------------------
(***************************************************************************)
(* What a sampler's result becomes.  A result is either                    *)
(*   by step : raw[step][walker][dimension]     (emcee), or                *)
(*   by name : raw[name][chain][draw]           (numpyro, arviz).          *)
(* The table has one row per kept draw; a row is one value per parameter.  *)
(* A filter is a sequence of [not, name]; the empty one keeps everything.  *)
(***************************************************************************)
EXTENDS Exact, TLC, FiniteSets, Sequences

(* Steps kept when discarding the first d and thinning by t: the last one  *)
(* of each complete run of t steps.                                        *)
KeptSteps(n, t, d) == [k \in 1..(IF n > d THEN (n - d) \div t ELSE 0) |-> d + k * t]
(* Row r of an emcee result with w walkers: step by step, walker by walker.*)
StepRow(raw, kept, w, r) == raw[kept[((r - 1) \div w) + 1]][((r - 1) % w) + 1]
StepRows(raw, t, d) ==
  LET kept == KeptSteps(Len(raw), t, d)
      w == Len(raw[1])
  IN TLCEval([r \in 1..(Len(kept) * w) |-> StepRow(raw, kept, w, r)])
(* Column of a variable: chain after chain.                                *)
Column(grp) ==
  LET m == Len(grp[1]) IN TLCEval([r \in 1..(Len(grp) * m) |-> grp[((r - 1) \div m) + 1][((r - 1) % m) + 1]])

Negated(f) == {i \in DOMAIN f : f[i].not}
Mixed(f) == Negated(f) # {} /\ Negated(f) # DOMAIN f
Named(f) == {f[i].name : i \in DOMAIN f}
KeptNames(all, f) ==
  IF f = <<>> THEN all
  ELSE IF Negated(f) = {} THEN all \cap Named(f) ELSE all \ Named(f)
=============================================================================
