------------------------------- MODULE JColour -------------------------------
(***************************************************************************)
(* The state is the current colour (channels), or "none".  Events:         *)
(*  format   in: input            out: ok, text, rgb, again (formatted twice), chain (as a chain's colour) *)
(*  scale    in: f                out: ok, text, rgb                       *)
(*  reformat in: -                out: ok, text, rgb                       *)
(*  map      in: num              out: ok, rgbs                            *)
(*  list     in: inputs           out: ok, rgbs                            *)
(* rgb is <<-1, -1, -1>> for what is not a six-digit hex colour.           *)
(***************************************************************************)
EXTENDS Colour, Clause, TraceRun
Start(tr) == [c |-> <<0, 0, 0>>, text |-> "none"]
Step(s, e) == IF e.op \in {"format", "scale", "reformat"} /\ e.out.ok THEN [c |-> e.out.rgb, text |-> e.out.text] ELSE s
Clauses(s, e) ==
  LET i == e.in  o == e.out IN
  CASE e.op = "format" ->
         LET k == Known(i.input) IN
         <<Cl("anything-else-refused", ~k, ~o.ok),
           Cl("accepted", k, o.ok),
           Cl("becomes-the-colour-it-denotes", k /\ o.ok, Denotes(i.input, o.rgb)),
           Cl("hex-codes-kept", k /\ o.ok /\ i.input.k = "hex", o.text = i.text),
           Cl("formatting-twice-changes-nothing", k /\ o.ok, o.again = o.text),
           Cl("same-colour-for-a-chain", k /\ o.ok, o.chain = o.text),
           Cl("refused-for-a-chain", ~k, o.chain = "refused")>>
    [] e.op = "scale" -> <<Ob("scaled", o.ok), Cl("valid-colour", o.ok, Valid(o.rgb)), Cl("every-channel-scaled-and-clamped", o.ok, Scaled(s.c, i.f, o.rgb))>>
    [] e.op = "reformat" -> <<Ob("formatted", o.ok), Cl("formatting-again-changes-nothing", o.ok, o.text = s.text /\ o.rgb = s.c)>>
    [] e.op = "map" -> <<Ob("colour-map", o.ok), Cl("as-many-as-requested", o.ok, Len(o.rgbs) = i.num), Cl("valid-colours", o.ok, \A j \in DOMAIN o.rgbs : Valid(o.rgbs[j]))>>
    [] OTHER -> <<Ob("formatted", o.ok), Cl("one-each-in-order", o.ok, Len(o.rgbs) = Len(i.inputs) /\ \A j \in DOMAIN i.inputs : Denotes(i.inputs[j], o.rgbs[j]))>>
=============================================================================
