------------------------------- MODULE Modes -------------------------------
(* Fourier coefficient tables under changes of resolution.  A problem description ("input") carries the full      *)
(* rectangle of modes, a stored solution ("solution") the half plane m = 0, n >= 0 plus all of m > 0.  A table     *)
(* maps each mode to the version of the value stored under it: 0 is a zero coefficient, 1 the initial value,       *)
(* v > 1 a value written later.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxM, MaxN, MaxOps, Random, Emitting,
          Ways        \* ways of changing the resolution; "rebuild" and "schedule" refuse to shorten the axis tables
VARIABLES kind, mp, nt, tab, axis, ver, seen, ops
vars == <<kind, mp, nt, tab, axis, ver, seen, ops>>
Dom(k, a, b) == {<<m, n>> \in (0..a-1) \X (-b..b) : k = "input" \/ m > 0 \/ n >= 0}
Refit(t, d) == [x \in d |-> IF x \in DOMAIN t THEN t[x] ELSE 0]
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Kinds == {"input", "solution"}
Init == /\ kind \in Kinds /\ mp \in 2..MaxM /\ nt \in 0..MaxN
        /\ tab = [x \in Dom(kind, mp, nt) |-> 1] /\ axis = [n \in 0..nt |-> 1] /\ ver = 1 /\ seen = <<mp, nt>> /\ ops = <<>>
\* the walk generator chooses the starting point in its first step
GInit == kind = "none" /\ mp = 2 /\ nt = 0 /\ tab = [x \in {} |-> 0] /\ axis = [n \in {} |-> 0] /\ ver = 0 /\ seen = <<2, 0>> /\ ops = <<>>
Live(t) == {<<x[1], x[2], t[x]>> : x \in {y \in DOMAIN t : t[y] # 0}}
LiveAx(t) == {<<n, t[n]>> : n \in {y \in DOMAIN t : t[y] # 0}}
Op(way, a, b, ok, v, t, ax, p) == ops' = IF Emitting THEN Append(ops, [way |-> way, mp |-> a, nt |-> b, ok |-> ok, v |-> v, tab |-> Live(t), axis |-> LiveAx(ax), p |-> p]) ELSE ops
Start == \E k \in {RandomElement(Kinds)} : \E a \in {RandomElement(2..MaxM)} : \E b \in {RandomElement(0..MaxN)} :
           /\ kind' = k /\ mp' = a /\ nt' = b /\ tab' = [x \in Dom(k, a, b) |-> 1] /\ axis' = [n \in 0..b |-> 1] /\ ver' = 1 /\ seen' = <<a, b>>
           /\ Op("start", a, b, TRUE, 1, tab', axis', <<0, 0>>)
Change(way, a, b) ==
   LET refused == way \in {"rebuild", "schedule"} /\ b < nt IN
   /\ (kind = "solution") = (way = "interpolate")
   /\ IF refused THEN UNCHANGED <<mp, nt, tab, axis, seen>>
      ELSE /\ mp' = a /\ nt' = b /\ tab' = Refit(tab, Dom(kind, a, b)) /\ axis' = Refit(axis, 0..b)
           /\ seen' = <<IF a < seen[1] THEN a ELSE seen[1], IF b < seen[2] THEN b ELSE seen[2]>>
   /\ Op(way, a, b, ~refused, ver, tab', axis', <<0, 0>>)
   /\ UNCHANGED <<kind, ver>>
Write == \E x \in Pick(DOMAIN tab) :
           /\ tab' = [tab EXCEPT ![x] = ver + 1] /\ axis' = [axis EXCEPT ![nt] = ver + 1] /\ ver' = ver + 1
           /\ Op("write", mp, nt, TRUE, ver + 1, tab', axis', x) /\ UNCHANGED <<kind, mp, nt, seen>>
Next == \/ \E w \in Ways, a \in 2..MaxM, b \in 0..MaxN : Change(w, a, b)
        \/ Write
GNext == IF kind = "none" THEN Start
         ELSE \E z \in {RandomElement(1..4)} :
              IF z = 1 THEN Write
              ELSE \E w \in {IF kind = "solution" THEN "interpolate" ELSE RandomElement(Ways \ {"interpolate"})} :
                   \E a \in {RandomElement(2..MaxM)} : \E b \in {RandomElement(0..MaxN)} : Change(w, a, b)
Bounded == IF Emitting THEN Len(ops) < MaxOps ELSE ver < MaxOps
Spec == Init /\ [][Bounded /\ Next]_vars
GSpec == GInit /\ [][Bounded /\ GNext]_vars
\* ---- properties
Shape == DOMAIN tab = Dom(kind, mp, nt) /\ DOMAIN axis = 0..nt
\* a coefficient that was inside every resolution visited is still there; initial values outside are gone
Survivors == \A x \in DOMAIN tab : (tab[x] = 1 => (x[1] < seen[1] /\ x[2] <= seen[2] /\ -x[2] <= seen[2])) /\ ((x[1] < seen[1] /\ x[2] <= seen[2] /\ -x[2] <= seen[2]) => tab[x] # 0)
UpDownIdentity == \A a \in mp..MaxM, b \in nt..MaxN : Refit(Refit(tab, Dom(kind, a, b)), Dom(kind, mp, nt)) = tab
\* lowering in two steps equals lowering at once; order of the two directions is irrelevant
Confluent == \A a \in 2..mp, b \in 0..nt : Refit(Refit(tab, Dom(kind, a, nt)), Dom(kind, a, b)) = Refit(Refit(tab, Dom(kind, mp, b)), Dom(kind, a, b))
SharedKept == [][ver' = ver => \A x \in DOMAIN tab \cap DOMAIN tab' : tab'[x] = tab[x]]_vars
NewAreZero == [][ver' = ver => \A x \in DOMAIN tab' \ DOMAIN tab : tab'[x] = 0]_vars
Emit == (Emitting /\ Len(ops) = MaxOps) => PrintT("@@" \o ToJson([kind |-> kind, ops |-> ops]))
=============================================================================
