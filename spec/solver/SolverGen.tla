------------------------------ MODULE SolverGen ------------------------------
(* Behaviour generator with the code's real constants: boundary-valued outcomes chosen by moods so   *)
(* that long failure histories, slow progress, escalation and multi-stage ramps all occur.           *)
(* Each finished behaviour is printed as JSON and replayed into the real loops.                      *)
EXTENDS SolverControl, Json
CONSTANTS Styles, Lang, NsChoices, NiterChoices, Moods, IntrMode, VacOn
VARIABLES mood, left, intrAt
gvars == <<vars, mood, left, intrAt>>
O(k, r, z, l, f) == [k |-> k, r |-> r, z |-> z, l |-> l, f |-> f]
Clip(v) == IF v < 1 THEN 1 ELSE IF v > 100000000 THEN 100000000 ELSE v
Mul(q, v) == IF v > 100000000 \div q THEN 100000000 ELSE q * v
NsA == {<<5>>, <<7>>}
NsB == {<<5, 9>>, <<5, 4, 9>>, <<2, 7, 5, 7, 11>>, <<9, 5>>, <<5, 5, 7>>, <<2, 5, 1>>, <<3, 5, 8>>, <<4, 4>>}
NsC == {<<5, 9>>, <<3, 5, 8>>, <<4, 4>>, <<5, 5, 7>>, <<3, 3, 3, 9>>, <<6, 7, 7, 12>>, <<4, 11>>, <<9, 5>>, <<2, 5>>}   \* the last two are refused
NsP == {<<5, 9>>, <<5, 4, 9>>, <<2, 7, 5, 11>>, <<9, 5>>, <<2, 5, 1>>, <<3, 5, 8>>}   \* no repeated grids
Lo == {6, 17} Hi == {45, 120, 360}
Cfgs == { [style |-> s, lang |-> Lang, ns |-> n, ftol |-> [q \in 1..Len(n) |-> IF q = Len(n) THEN a ELSE a + 2 * (q % 3)],
           niter |-> [q \in 1..Len(n) |-> m + 3 * (q - 1)], ret |-> r, nstep |-> p] :
           s \in Styles, n \in NsChoices, a \in {3, 30}, m \in NiterChoices, r \in BOOLEAN, p \in {1, 3, 10} }

F == Ftol
B0 == IF res0 = -1 THEN FsqInit ELSE res0
B1 == IF res1 = -1 THEN 3 * FsqInit ELSE res1
\* choices for the preconditioned residual sum
FDown == {Clip(B0 - 1), Clip(B0 \div 2), Clip(B0)}
FUp852 == {Clip(Mul(100, B0)), Clip(Mul(100, B0) + 1), Clip(B0 + 1)}
FUpPar == {Clip(Mul(10000, B0)), Clip(Mul(10000, B0) + 1), Clip(Mul(1000, B0)), Clip(Mul(1000, B0) + 1)}
\* choices for the invariant residuals: none of these converges unless stated
RNear == {<<F + 1, F, F>>, <<F, F + 1, F>>, <<F, F, F + 1>>, <<F + 40, F + 1, 0>>}
\* tolerance edge: each residual alone (or two of them) above the tolerance, the others anywhere below it
REdge == LET U == {F + 1, F + 2, 2 * F, 3 * F, 10 * F + 1}  D == {0, 1, F} IN
         { <<u, d, e>> : u \in U, d \in D, e \in D } \cup { <<d, u, e>> : u \in U, d \in D, e \in D }
         \cup { <<d, e, u>> : u \in U, d \in D, e \in D } \cup { <<u, u, d>> : u \in U, d \in D }
RMid  == {<<40, 41, 9>>, <<41, 41, 3>>, <<0, 82, 50>>, <<81, 0, 900>>, <<300, 200, 100>>}
RConv == {<<F, F, F>>, <<0, F, F>>, <<F, 0, 0>>}
RRel  == {<<Clip(B1) \div 3, Clip(B1) \div 3, Clip(B1) \div 3>>, <<Clip(Mul(10000, B1)) \div 2, Clip(Mul(10000, B1)) \div 2, 7>>,
          <<Clip(Mul(1000, B1)) \div 2 + 1, Clip(Mul(1000, B1)) \div 2 + 1, 7>>}
NotConv(t) == ~(t[1] <= F /\ t[2] <= F /\ t[3] <= F)
OK(T, fs) == { O("ok", t[1], t[2], t[3], f) : t \in {u \in T : NotConv(u)}, f \in fs }
Conv == { O("ok", t[1], t[2], t[3], f) : t \in RConv, f \in {Clip(B0 - 1), Clip(Mul(50, B0))} }
NaNs == { O("ok", NonFinite, F, F, 5), O("ok", F, NonFinite, F, 5), O("ok", F, F, NonFinite, 5) }
BadJ == { O("bad", 0, 0, 0, 0) }
HugeO == IF CanHuge THEN { O("huge", 500000, 400000, 3000, f) : f \in {70000, 70001} } ELSE {}
Vac == IF VacOn /\ i2 > 1 /\ ijac \notin {J1, J2} THEN { O("vac", 7 + F, 1, 2, f) : f \in FDown } ELSE {}
Errs == { O("errP", 0, 0, 0, 0), O("errI", 0, 0, 0, 0) }

Choices ==
  CASE mood = "descend" -> OK(RMid \cup RNear, FDown)
    [] mood = "mixed"   -> OK(RMid \cup RNear \cup RRel, FDown \cup FUp852 \cup FUpPar) \cup BadJ \cup HugeO
    [] mood = "storm"   -> BadJ \cup OK({<<40, 41, 9>>, <<300, 200, 100>>}, {Clip(Mul(100, B0) + 1), Clip(B0)}) \cup HugeO
    [] mood = "leash"   -> OK({<<40, 41, 9>>}, {Clip(Mul(100, B0) + 1)}) \cup (IF i2 = i1 THEN OK({<<40, 41, 9>>}, {Clip(B0)}) ELSE {})
    [] mood = "slow"    -> OK({<<41, 41, 3>>, <<0, 82, 50>>}, {Clip(B0 + 1), Clip(Mul(2, B0))})
    [] mood = "parup"   -> OK(RRel, FUpPar \cup {Clip(B0)})
    [] mood = "end"     -> Conv \cup NaNs
    [] mood = "conv"    -> Conv
    [] mood = "edge"    -> OK(REdge, FDown \cup {Clip(B0 + 1)})
    [] mood = "early"   -> OK(RMid, {Clip(B0), Clip(Mul(100, B0) + 1), Clip(Mul(100, B0))}) \cup BadJ   \* early in a stage: roll back before the first checkpoint
    [] mood = "err"     -> Errs
    [] mood = "nan"     -> NaNs
    [] mood = "vac"     -> IF Vac = {} THEN OK(RMid, FDown) ELSE Vac
    [] mood = "start"   -> BadJ \cup HugeO \cup OK(RMid, {70000})
MoodLen(m) == CASE m \in {"descend", "slow"} -> {3, 12, 16, 30} [] m \in {"storm", "leash"} -> {4, 15, 60, 90} [] m = "mixed" -> {5, 20}
                [] m \in {"edge", "early"} -> {3, 6}
                [] m = "parup" -> {2, 14} [] OTHER -> {1}

GInit == /\ \E c \in Cfgs : InitWith(c)
         /\ mood \in {"start", "descend", "mixed", "edge", "early"} \cap Moods
         /\ left = 3
         /\ intrAt \in (IF IntrMode THEN {1, 2, 3, 5, 8, 13} ELSE {0})
Polls == Len(SelectSeq(log, LAMBDA e : e.t = "eval" /\ e.poll > 0))
\* convergence exactly when the rollback count reaches the limit is left open by the specification
Allowed(o) == ~(ijac >= J3 /\ o.k = "ok" /\ o.r # NonFinite /\ o.r <= F /\ o.z <= F /\ o.l <= F)
\* one random successor per step (RandomElement, seeded by TLC's -seed): cheap long behaviours
EvalStep ==
  /\ pc = "eval"
  /\ \E o \in {RandomElement({p \in Choices : Allowed(p)})} :
     \E m \in {RandomElement(Moods)} :
     \E n \in {RandomElement(MoodLen(m))} :
        /\ Evaluate(o, IntrMode /\ Polls + 1 = intrAt)
        /\ IF left > 1 THEN left' = left - 1 /\ mood' = mood ELSE mood' = m /\ left' = n
  /\ UNCHANGED intrAt
GNext == \/ EvalStep
         \/ (Finish \/ StartStage \/ Refuse) /\ UNCHANGED <<mood, left, intrAt>>
GSpec == GInit /\ [][GNext]_gvars
Emit == pc = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, log |-> log]))
=============================================================================
