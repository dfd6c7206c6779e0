----------------------------- MODULE MCRegistry -----------------------------
(* Two independent consumers sharing chain objects.  Every transition of   *)
(* the state graph is printed as a history (a path that ends with it).     *)
EXTENDS Registry, TLC, Json

CONSTANTS NAMES, OBJS, MAXT

Ops == [op : {"add", "marker"}, name : NAMES, obj : OBJS]
       \cup [op : {"remove", "removeObj"}, name : NAMES, obj : {"-"}]
       \cup [op : {"truth", "config", "override"}, name : {"-"}, obj : OBJS]

VARIABLES cons, h
vars == <<cons, h>>

Init == cons = <<Empty, Empty>> /\ h = <<>>

Do(c, o) == /\ o.op = "truth" => Len(cons[c].truths) < MAXT
            /\ cons' = [cons EXCEPT ![c] = Apply(@, o)]
            /\ h' = Append(h, [c |-> c, op |-> o.op, name |-> o.name, obj |-> o.obj])

Next == \E c \in 1..2, o \in Ops : Do(c, o)

View == cons
Emit == PrintT("##" \o ToJson(h'))

(* Invariants and step properties of the design.                           *)
TypeInv == \A c \in 1..2 : UniqueNames(cons[c])
Last == h'[Len(h')]
Isolated == [][\A c \in 1..2 : c # Last.c => cons'[c] = cons[c]]_vars
Refused == [][~Accepts(cons[Last.c], Last) => cons' = cons]_vars
OrderKept == [][\A c \in 1..2 : LET a == Names(cons[c]) b == Names(cons'[c])
                IN \A i, j \in DOMAIN a : \A p, q \in DOMAIN b :
                     (i < j /\ a[i] = b[p] /\ a[j] = b[q]) => p < q]_vars
OneByOne == [][\A c \in 1..2 : LET d == Len(Names(cons'[c])) - Len(Names(cons[c]))
                                IN d \in {-1, 0, 1}]_vars
=============================================================================
