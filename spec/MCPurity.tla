------------------------------ MODULE MCPurity ------------------------------
(* From every base state: a query, then a state change, then every query.  *)
EXTENDS Purity, TLC, Json
CONSTANTS QUERIES, BASES, MUTS, CONFIGS, OVERRIDES, TRUTHS

Base(b) == CASE b = "one" -> <<<<"add", "a">>>>
             [] b = "many" -> <<<<"add", "a">>, <<"add", "b">>, <<"add", "c">>, <<"truth", "t">>, <<"config", "k">>>>
             [] b = "marked" -> <<<<"add", "b">>, <<"add", "a">>, <<"marker", "m">>, <<"override", "o">>>>
(* The changes of each kind: sequences of operations.  "other": the same   *)
(* name with other samples; "again": with the same samples and other       *)
(* settings.                                                               *)
Muts(m) == CASE m = "none" -> {<<>>}
             [] m = "add" -> {<<<<"add", "d">>>>, <<<<"add", "e">>>>}
             [] m = "remove" -> {<<<<"remove", "a">>>>}
             [] m = "truth" -> {<<<<"truth", t>>>> : t \in TRUTHS}
             [] m = "config" -> {<<<<"config", k>>>> : k \in CONFIGS}
             [] m = "override" -> {<<<<"override", k>>>> : k \in OVERRIDES}
             [] m = "swap" -> {<<<<"remove", "b">>, <<"add", "b">>>>, <<<<"remove", "a">>, <<"add", "a">>>>}
             [] m = "other" -> {<<<<"remove", n>>, <<"add", n \o "2">>>> : n \in {"a", "b", "c"}}
             [] m = "again" -> {<<<<"remove", n>>, <<"add", n \o "3">>>> : n \in {"a", "b", "c"}}
Name(o) == IF o \in {"a2", "a3"} THEN "a" ELSE IF o \in {"b2", "b3"} THEN "b" ELSE IF o \in {"c2", "c3"} THEN "c" ELSE o
Op(c, p) == [c |-> c, op |-> p[1], name |-> IF p[1] \in {"add", "remove", "marker"} THEN Name(p[2]) ELSE "-", obj |-> p[2]]

VARIABLES cons, h, phase, memo
vars == <<cons, h, phase, memo>>
RECURSIVE Fold(_, _)
Fold(s, os) == IF os = <<>> THEN s ELSE Fold(PApply(s, Head(os)), Tail(os))
Ops(c, ps) == [i \in DOMAIN ps |-> Op(c, ps[i])]

Init == /\ \E b \in BASES : LET os == Ops(1, Base(b)) \o Ops(2, Base("one"))
                            IN cons = Fold(<<Empty, Empty>>, os) /\ h = os
        /\ phase = 0 /\ memo = {}
Answer(c, q) == <<cons[c], q>>
Query(c, q) == /\ h' = Append(h, [c |-> c, op |-> "query", name |-> q, obj |-> "-"])
               /\ memo' = Remember(memo, cons[c], q, Answer(c, q))
               /\ UNCHANGED cons
Next == \/ phase = 0 /\ phase' = 1 /\ \E q \in QUERIES : Query(1, q)
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED memo
           /\ \E c \in 1..2, m \in MUTS : \E mu \in Muts(m) : LET os == Ops(c, mu) IN cons' = Fold(cons, os) /\ h' = h \o os
        \/ phase = 2 /\ phase' = 3 /\ \E q \in QUERIES : Query(1, q)
(* All last queries of one history are run in one trace: print at phase 2. *)
Emit == phase' # 2 \/ PrintT("##" \o ToJson(h'))
Functional == \A m, n \in memo : (m.s = n.s /\ m.q = n.q) => m.a = n.a
QueriesChangeNothing == [][(h' # h /\ h'[Len(h')].op = "query") => cons' = cons]_vars
=============================================================================
