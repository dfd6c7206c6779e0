----------------------------- MODULE MCTranslate -----------------------------
(* Every short run with every thinning and discarding, and every filter.    *)
EXTENDS Translate, Json
CONSTANTS STEPS, WALK, NAMES, FLEN
VARIABLE d
Entry == [not : BOOLEAN, name : NAMES]
Init == \/ d \in [op : {"steps"}, n : 1..STEPS, w : 2..WALK, t : 1..STEPS, d : 0..STEPS]
        \/ \E k \in 0..FLEN : d \in [op : {"names"}, f : [1..k -> Entry], all : SUBSET NAMES \ {{}}]
Next == FALSE /\ UNCHANGED d
Emit == PrintT("##" \o ToJson(d))
S == d.op = "steps"
F == d.op = "names"
Raw == [s \in 1..d.n |-> [w \in 1..d.w |-> <<10 * s + w, 0 - (10 * s + w)>>]]
Rows == StepRows(Raw, d.t, d.d)
OnceEach == S => \A i, j \in DOMAIN Rows : Rows[i] = Rows[j] => i = j
EveryWalkerAlike == S => Len(Rows) % d.w = 0
InOrder == S => \A i, j \in DOMAIN Rows : i < j => Rows[i][1] < Rows[j][1]
NothingDiscarded == S => \A i \in DOMAIN Rows : Rows[i][1] > 10 * (d.d + 1)
NoThinningKeepsAll == S /\ d.t = 1 => Len(Rows) = d.w * (IF d.n > d.d THEN d.n - d.d ELSE 0)
Regular == S => \A k \in 1..(Len(KeptSteps(d.n, d.t, d.d)) - 1) : KeptSteps(d.n, d.t, d.d)[k + 1] = KeptSteps(d.n, d.t, d.d)[k] + d.t
Wasted == S => Len(KeptSteps(d.n, d.t, d.d)) * d.t + d.t > d.n - d.d
Flip(f) == [i \in DOMAIN f |-> [f[i] EXCEPT !.not = ~f[i].not]]
Complement == F /\ ~Mixed(d.f) /\ d.f # <<>> => KeptNames(d.all, Flip(d.f)) = d.all \ KeptNames(d.all, d.f)
Within == F => KeptNames(d.all, d.f) \subseteq d.all
Twice == F /\ ~Mixed(d.f) => KeptNames(KeptNames(d.all, d.f), d.f) = KeptNames(d.all, d.f)
EmptyKeepsAll == F /\ d.f = <<>> => KeptNames(d.all, d.f) = d.all
OrderFree == F => \A i, j \in DOMAIN d.f : LET g == [d.f EXCEPT ![i] = d.f[j], ![j] = d.f[i]] IN KeptNames(d.all, g) = KeptNames(d.all, d.f) /\ Mixed(g) = Mixed(d.f)
Columns == S /\ d.n > 0 => LET c == Column([w \in 1..d.w |-> [s \in 1..d.n |-> 100 * w + s]]) IN \A i, j \in DOMAIN c : i < j => c[i] < c[j]
=============================================================================
