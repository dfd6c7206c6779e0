----------------------------- MODULE MCWeights ------------------------------
EXTENDS Weights, TLC, Json
CONSTANTS DEPTH, BLOCKS

Ids == 1..BLOCKS
Bases == {[i \in Ids |-> [id |-> i, n |-> w[i]]] : w \in {<<1, 3, 1, 2, 1>>, <<2, 1, 1, 1, 4>>, <<3, 2, 3, 1, 1>>, <<1, 1, 5, 1, 2>>}}
VARIABLES base, rows, scale, path
vars == <<base, rows, scale, path>>
Init == base \in Bases /\ rows = base /\ scale = "1" /\ path = <<>>
Do(kind, r, c) == /\ rows' = r /\ scale' = c /\ base' = base
                  /\ path' = Append(path, [kind |-> kind, rows |-> r, scale |-> c])
Next == /\ Len(path) < DEPTH
        /\ \/ Do("repeat", Unfold(rows), scale)
           \/ \E i \in DOMAIN rows : rows[i].n > 1 /\ Do("split", Split(rows, i, 1), scale)
           \/ \E c \in {"2", "1099511627776", "1/1152921504606846976"} : c # scale /\ Do("scale", rows, c)
           \/ Do("permute", Reverse(rows), scale)
           \/ Do("permute", Rotate(rows), scale)
           \/ Do("permute", Swap(rows, 1, Len(rows) \div 2 + 1), scale)
Emit == IF Len(path') = DEPTH THEN PrintT("##" \o ToJson([base |-> base', path |-> path'])) ELSE TRUE
SharesKept == SameShares(rows, base, Ids)
TotalKept == Total(rows, 0) = Total(base, 0)
=============================================================================
