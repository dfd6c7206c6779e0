------------------------------ MODULE MCDivide ------------------------------
EXTENDS Divide, TLC, Json
CONSTANTS MAXN
VARIABLE d
Init == d \in [n : 1..MAXN, w : 1..13, grid : BOOLEAN]
Next == FALSE /\ UNCHANGED d
(* A chain whose rows do not divide evenly is not accepted in the first place. *)
Emit == IF d.n % d.w = 0 THEN PrintT("##" \o ToJson(d)) ELSE TRUE
Rows == [i \in 1..d.n |-> 10 * i]
D == Dividable(d.n, d.w, FALSE)
Lossless == D => Join(Parts(Rows, d.w)) = Rows
Equal == D => \A i, j \in 1..d.w : Len(Block(Rows, d.w, i)) = Len(Block(Rows, d.w, j)) /\ Len(Block(Rows, d.w, i)) > 0
InOrder == D => \A i \in 1..(d.w - 1) : Block(Rows, d.w, i)[Len(Block(Rows, d.w, i))] < Block(Rows, d.w, i + 1)[1]
Again == D => \A k \in 2..4 : Dividable(d.n \div d.w, k, FALSE) => Join(Parts(Block(Rows, d.w, 1), k)) = Block(Rows, d.w, 1)
=============================================================================
