------------------------------ MODULE MCPoints ------------------------------
(* All small chains: every ranking of the log posteriors (ties included).   *)
EXTENDS Points, TLC, Json
CONSTANTS ROWS
VARIABLE d
Init == d \in [lps : UNION {[1..k -> -2..0] : k \in 1..ROWS}, index : {"plain", "reversed", "same", "text"}]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
B == BestRows(d.lps)
Rev == [i \in DOMAIN d.lps |-> d.lps[Len(d.lps) + 1 - i]]
Exists == B # {}
Ties == \A i, j \in B : d.lps[i] = d.lps[j]
OrderFree == BestRows(Rev) = {Len(d.lps) + 1 - i : i \in B}
ShiftFree == BestRows([i \in DOMAIN d.lps |-> d.lps[i] - 50]) = B
Longer == \A v \in -2..0 : LET m == Append(d.lps, v) IN IF \A i \in B : v < d.lps[i] THEN BestRows(m) = B ELSE Len(m) \in BestRows(m)
=============================================================================
