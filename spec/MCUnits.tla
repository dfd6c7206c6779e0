------------------------------- MODULE MCUnits -------------------------------
EXTENDS Units, TLC, Json, Sequences
CONSTANT DEPTH
VARIABLES m, h
Scales == {"1", "-1", "1024", "-1/512", "1/100000000", "3000000000", "-7/3"}
Shifts == {"0", "5", "-1000"}
Ops == {o \in [op : {"map"}, p : 1..2, a : Scales, b : Shifts] : o.a # "1" \/ o.b # "0"}
       \cup [op : {"rename", "chain", "extra", "swap", "rechain"}]
Init == m = <<Id, Id>> /\ h = <<>>
Next == Len(h) < DEPTH /\ \E o \in Ops : (o.op # "map" => \A i \in DOMAIN h : h[i].op # o.op) /\ m' = After(m, o) /\ h' = Append(h, o)
Emit == PrintT("##" \o ToJson(h'))
Num(v) == [k |-> "num", v |-> v]
V(x, y, z) == <<Num(x), Num(y), Num(z)>>
U == V("-3", "1/7", "2")
Seen(mp) == LET p == [i \in 1..3 |-> Num(Put(mp, U[i].v))] IN IF Pos(mp) THEN p ELSE <<p[3], p[2], p[1]>>
Never == \A p \in 1..2 : ~QEq(m[p].a, "0")
Ordered == \A p \in 1..2 : QLt(Seen(m[p])[1].v, Seen(m[p])[2].v) /\ QLt(Seen(m[p])[2].v, Seen(m[p])[3].v)
Follows == \A p \in 1..2 : BoundAt(Seen(m[p]), U, m[p], "1e-20")
(* Undoing a change gives back what there was.                              *)
Undone == \A p \in 1..2 : LET n == Then(m[p], QDiv("1", m[p].a), QNeg(QDiv(m[p].b, m[p].a))) IN QEq(n.a, "1") /\ QEq(n.b, "0")
(* The relation notices values left where they were.                        *)
Notices == \A p \in 1..2 : BoundAt(U, U, m[p], "1e-20") => QEq(m[p].a, "1") /\ QEq(m[p].b, "0")
=============================================================================
