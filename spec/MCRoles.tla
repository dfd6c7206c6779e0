------------------------------ MODULE MCRoles -------------------------------
(* All chains over a universe of telling names, and all pairs over a       *)
(* smaller one in which the same name plays different roles.               *)
EXTENDS Roles, Integers, Sequences, Json
CONSTANTS MODE

Names == IF MODE = "one" THEN {"x", "y", "Weights", "w", "LOG_posterior", "c"} ELSE {"x", "y", "w"}
Orders == {s \in UNION {[1..k -> Names] : k \in 1..3} : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
Desc == {d \in [cols : Orders, wcol : {"weight", "w"}, pcol : {"log_posterior", "x"}, color : {"none", "c", "y"},
                cloud : BOOLEAN, drawn : IF MODE = "one" THEN {TRUE} ELSE BOOLEAN] :
           /\ d.wcol = "w" => HasName(d, "w")
           /\ d.pcol = "x" => HasName(d, "x")
           /\ d.color # "none" => HasName(d, d.color)
           /\ d.cloud => d.drawn /\ d.color # "none"
           /\ MODE = "two" => (d.color = "none" \/ d.cloud)}

VARIABLE cs
Init == cs = <<>>
Next == /\ Len(cs) < (IF MODE = "one" THEN 1 ELSE 2)
        /\ \E d \in Desc : cs' = Append(cs, d)
Emit == IF Len(cs') = (IF MODE = "one" THEN 1 ELSE 2) THEN PrintT("##" \o ToJson(cs')) ELSE TRUE

All == FirstSeen(cs)
NoRoleIsAParameter == \A i \in DOMAIN cs : \A n \in {Params(cs[i])[k] : k \in DOMAIN Params(cs[i])} :
                        n # cs[i].wcol /\ n # cs[i].pcol /\ SLower(n) \notin Reserved
EveryColumnHasOneRole == \A i \in DOMAIN cs : \A k \in DOMAIN cs[i].cols :
   LET n == cs[i].cols[k] IN InSeq(n, Params(cs[i])) # (n = cs[i].wcol \/ n = cs[i].pcol \/ SLower(n) \in Reserved)
NoRepeats == \A a, b \in DOMAIN All : All[a] = All[b] => a = b
Complete == \A n \in Names : InSeq(n, All) <=> Bearers(cs, n) # {}
FirstChainFirst == cs # <<>> => SubSeq(All, 1, Len(Plotted(cs[1]))) = Plotted(cs[1])
=============================================================================
