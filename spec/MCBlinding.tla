----------------------------- MODULE MCBlinding -----------------------------
EXTENDS Blinding, TLC, Json
P == {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "b", "c">>}
VARIABLE f
Init == f \in [kind : {"plot", "walks", "distributions", "summary"}, params : P, blind : {<<"a">>, <<"b">>, <<"c">>, <<"a", "c">>, <<"*">>},
               hists : BOOLEAN, flip : BOOLEAN, extra : 0..2, rows : 1..3]
        /\ (f.kind # "plot" => f.hists /\ ~f.flip) /\ (f.kind # "walks" => f.extra = 0)
        /\ (~f.hists => Len(f.params) > 1 /\ ~f.flip)
        /\ (\E i \in DOMAIN f.params : Hidden(f, f.params[i]))
Next == FALSE /\ UNCHANGED f
Emit == PrintT("##" \o ToJson(f))
(* Every parameter has a place, and a hidden one tells nothing anywhere.   *)
EveryParameterShown == \A i \in DOMAIN f.params : \E k \in DOMAIN Figure(f) : f.params[i] \in {Figure(f)[k].x, Figure(f)[k].y}
HiddenIsSilent == \A k \in DOMAIN Figure(f) : \A d \in {"x", "y", "t"} : (MayTell(f, k)[d] /\ Figure(f)[k][d] # "-") => ~InSeq(Figure(f)[k][d], f.blind) /\ f.blind # <<"*">>
BlindingMoreTellsLess == \A k \in DOMAIN Figure(f) : \A d \in {"x", "y", "t"} : MayTell([f EXCEPT !.blind = <<"*">>], k)[d] => MayTell(f, k)[d]
OpenTells == \A k \in DOMAIN Figure(f) : \A d \in {"x", "y", "t"} : ~InSeq(Figure(f)[k][d], f.blind) /\ f.blind # <<"*">> => MayTell(f, k)[d]
=============================================================================
