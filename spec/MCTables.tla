------------------------------ MODULE MCTables ------------------------------
EXTENDS Tables, TLC, Json
CONSTANTS NCHAINS
P == {"x", "y", "z"}
Orders == {<<"x">>, <<"y", "x">>, <<"z">>, <<"x", "y", "z">>}
Ch(i) == [name : {<<"A", "B", "C">>[i]}, params : Orders, drawn : BOOLEAN]
VARIABLE d
Init == d \in [chains : {s \in UNION {[1..k -> UNION {Ch(i) : i \in 1..NCHAINS}] : k \in 1..NCHAINS} :
                          \A i \in DOMAIN s : s[i].name = <<"A", "B", "C">>[i]},
               pick : {<<>>, <<"A">>, <<"B", "A">>}, columns : {<<>>, <<"y", "x">>, <<"z", "x">>}, blind : {<<>>, <<"x">>, <<"y", "z">>, <<"*">>},
               transpose : BOOLEAN, labels : {<<>>}]
        /\ (\A i \in DOMAIN d.pick : \E j \in DOMAIN d.chains : d.chains[j].name = d.pick[i])
        /\ Chosen(d) # <<>>
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
Flip == [d EXCEPT !.transpose = ~@]
Rectangular == \A r \in DOMAIN Grid(d) : Len(Grid(d)[r]) = Len(Header(d)) - 1
Dual == \A r \in DOMAIN Grid(d) : \A k \in DOMAIN Grid(d)[r] : Grid(Flip)[k][r] = Grid(d)[r][k]
NoBlinded == \A i \in DOMAIN Open(d) : d.blind # <<"*">> /\ ~InSeq(Open(d)[i], d.blind)
BlankExactlyWithout == \A i \in DOMAIN Chosen(d), j \in DOMAIN Open(d) : (Cell(Chosen(d)[i], Open(d)[j]) = <<>>) = ~InSeq(Open(d)[j], Chosen(d)[i].params)
Everyone == d.pick = <<>> => \A i \in DOMAIN d.chains : d.chains[i].drawn => InSeq(d.chains[i].name, Names(d))
=============================================================================
