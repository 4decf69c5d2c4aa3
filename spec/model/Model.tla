------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The step-wise model object as a state machine.                          *)
(*                                                                         *)
(* A state vector is named, not spelled out: defs[i] says how state i comes *)
(* about (a given vector, the initial guess for an axis, a time step from   *)
(* another state, a refinement of another state, whatever a solve left).    *)
(* Two states with the same definition are the same vector, bit for bit     *)
(* (up to rounding for time steps); that is what a replay compares.         *)
(*                                                                         *)
(*   x, v, b   geometry, velocity and checkpoint (0: zero, -1: unspecified) *)
(*   ns, ax    grid, and how often the axis was guessed again               *)
(*   pre       the state the preconditioner and the constraint multiplier   *)
(*             were assembled for                                           *)
(*   small     whether the last residual let the m=1 gauge be fixed         *)
(*   f         what the force vector holds: [x, pre, fixed, kind]           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Grids, Given, Emitting
VARIABLES x, v, b, ns, ax, pre, small, f, defs, n, log
vars == <<x, v, b, ns, ax, pre, small, f, defs, n, log>>
Unknown == -1
Zero == 0
NoForce == [x |-> Unknown, pre |-> Unknown, fixed |-> FALSE, asked |-> FALSE, late |-> FALSE, kind |-> "none"]
Def(k, a, c, d, m) == [k |-> k, a |-> a, c |-> c, d |-> d, ns |-> m]
Has(d) == \E i \in 1..Len(defs) : defs[i] = d
Where(d) == IF Has(d) THEN CHOOSE i \in 1..Len(defs) : defs[i] = d ELSE Len(defs) + 1
With(d) == IF Has(d) THEN defs ELSE Append(defs, d)
Here == {i \in 1..Len(defs) : defs[i].ns = ns}          \* the known states on this grid
Start == Def("guess", 0, 0, 0, CHOOSE g \in Grids : \A h \in Grids : g <= h)
Init == /\ defs = <<Start>> /\ x = 1 /\ v = Zero /\ b = Unknown /\ ns = Start.ns /\ ax = 0 /\ n = 0
        /\ pre = Unknown /\ small = FALSE /\ f = NoForce /\ log = <<>>
Say(op, a, c, answer) == log' = IF Emitting THEN Append(log, [op |-> op, a |-> a, c |-> c, answer |-> answer, x |-> x', v |-> v', b |-> b', ns |-> ns', f |-> f', defs |-> Len(defs')]) ELSE <<[op |-> op, answer |-> answer]>>
Same == UNCHANGED <<x, v, b, ns, ax, pre, small, f, defs>>
Tick == n < MaxOps /\ n' = n + 1
(***************************************************************************)
(* reading and writing                                                      *)
(***************************************************************************)
Get == Tick /\ Same /\ Say("get", 0, 0, "ok")
SetTo(d) == /\ Tick /\ defs' = With(d) /\ x' = Where(d) /\ UNCHANGED <<v, b, ns, ax, pre, small, f>> /\ Say("set", Where(d), 0, "ok")
SetGiven(i) == SetTo(Def("given", i, 0, 0, ns))
SetKnown(i) == i \in Here /\ SetTo(defs[i])
SetWrong(i) == Tick /\ Same /\ Say("setwrong", i, 0, "refused")
Save == Tick /\ b' = x /\ UNCHANGED <<x, v, ns, ax, pre, small, f, defs>> /\ Say("save", 0, 0, "ok")
Restore == Tick /\ b # Unknown /\ x' = b /\ v' = Zero /\ UNCHANGED <<b, ns, ax, pre, small, f, defs>> /\ Say("restore", 0, 0, "ok")
Still == Tick /\ v' = Zero /\ UNCHANGED <<x, b, ns, ax, pre, small, f, defs>> /\ Say("still", 0, 0, "ok")
(***************************************************************************)
(* evaluating: `late` is a step of the iteration at which the preconditioner *)
(* is not assembled anew, `fixed` whether the gauge is fixed at once         *)
(***************************************************************************)
Result(y, kind, late, fixed) == [x |-> y, pre |-> IF late THEN pre ELSE y, fixed |-> fixed \/ small, asked |-> fixed, late |-> late, kind |-> kind]
Evaluate(kind, late, fixed) ==
  /\ Tick /\ f' = Result(x, kind, late, fixed) /\ pre' = (IF late THEN pre ELSE x)
  /\ small' \in BOOLEAN /\ UNCHANGED <<x, v, b, ns, ax, defs>>
  /\ Say("evaluate", IF kind = "raw" THEN 0 ELSE 1, (IF late THEN 1 ELSE 0) + (IF fixed THEN 0 ELSE 2), "ok")
\* the answer of a replay is judged when it is a function of the state alone
Judged(g) == g.x # Unknown /\ ~g.late /\ g.asked
\* the derivative of the force along a direction: two evaluations elsewhere, and back
Product(i) == /\ Tick /\ small' \in BOOLEAN /\ pre' = Unknown /\ f' = NoForce /\ UNCHANGED <<x, v, b, ns, ax, defs>> /\ Say("product", i, 0, "ok")
ProductWrong(i) == Tick /\ Same /\ Say("productwrong", i, 0, "refused")
\* the preconditioner, once it was assembled at this state by a full evaluation
Apply(i) == Tick /\ f.kind = "full" /\ Judged(f) /\ pre = f.x /\ Same /\ Say("apply", i, f.x, "ok")
ApplyWrong(i) == Tick /\ f.kind = "full" /\ Judged(f) /\ Same /\ Say("applywrong", i, 0, "refused")
(***************************************************************************)
(* moving                                                                   *)
(***************************************************************************)
Step(i) ==   \* i: which of the given step factors; the force is whatever the force vector holds
  /\ Tick /\ LET d == Def("step", x, v, n, ns) IN defs' = With(d) /\ x' = Where(d) /\ v' = (IF v = Unknown THEN Unknown ELSE Where(d))
  /\ UNCHANGED <<b, ns, ax, pre, small, f>> /\ Say("step", i, 0, "ok")
Guess == ax < 3 /\ LET d == Def("guess", ax, 0, 0, ns) IN /\ Tick /\ defs' = With(d) /\ x' = Where(d) /\ v' = Unknown /\ UNCHANGED <<b, ns, ax, pre, small, f>> /\ Say("guess", 0, 0, "ok")
Axis == Tick /\ ax < 2 /\ ax' = ax + 1 /\ UNCHANGED <<x, v, b, ns, pre, small, f, defs>> /\ Say("axis", 0, 0, "ok")
Again == LET d == Def("guess", ax + 1, 0, 0, ns) IN
  /\ Tick /\ ax < 2 /\ ax' = ax + 1 /\ defs' = With(d) /\ x' = Where(d) /\ v' = Unknown /\ b' = Unknown /\ pre' = Unknown /\ f' = NoForce /\ UNCHANGED <<ns, small>> /\ Say("again", 0, 0, "ok")
Finer(m, i) == LET d == Def("refine", x, i, 0, m) IN
  /\ Tick /\ m > ns /\ ns' = m /\ defs' = With(d) /\ x' = Where(d) /\ v' = Zero /\ b' = Unknown /\ pre' = Unknown /\ f' = NoForce /\ UNCHANGED <<ax, small>> /\ Say("finer", m, i, "ok")
Coarser(m) == Tick /\ m <= ns /\ Same /\ Say("coarser", m, 0, "refused")
Solve == LET d == Def("solved", n, 0, 0, ns) IN
  /\ Tick /\ defs' = With(d) /\ x' = Where(d) /\ v' = Unknown /\ b' = Unknown /\ pre' = Unknown /\ f' = NoForce /\ small' \in BOOLEAN /\ ax' = 3 /\ UNCHANGED ns /\ Say("solve", 0, 0, "ok")
Elsewhere(i) == Tick /\ Same /\ Say("elsewhere", i, 0, "ok")    \* other solves and other model objects in this process
(***************************************************************************)
Next == \/ Get \/ Save \/ Restore \/ Still \/ Guess \/ Axis \/ Again \/ Solve \/ Elsewhere(0)
        \/ \E i \in Given : SetGiven(i) \/ SetWrong(i) \/ Product(i) \/ Apply(i) \/ Step(i)
        \/ \E i \in Here : SetKnown(i)
        \/ \E k \in {"raw", "full"}, l, g \in BOOLEAN : Evaluate(k, l, g)
        \/ \E m \in Grids : Finer(m, 0) \/ Coarser(m)
Spec == Init /\ [][Next]_vars
(* what the statement asks *)
Typed == /\ x \in 1..Len(defs) /\ defs[x].ns = ns /\ v \in {Unknown, Zero} \cup 1..Len(defs) /\ (b # Unknown => b \in 1..Len(defs) /\ defs[b].ns = ns)
Last == IF log = <<>> THEN [op |-> "none", answer |-> "ok"] ELSE log[Len(log)]
RefusedKeeps == [][log' # <<>> /\ log'[Len(log')].answer = "refused" => UNCHANGED <<x, v, b, ns, ax, pre, f, defs>>]_vars
KeepsGeometry == [][log' # <<>> /\ log'[Len(log')].op \in {"get", "evaluate", "product", "apply", "save", "still", "axis", "elsewhere"} => x' = x]_vars
RestoreExact == [][log' # <<>> /\ log'[Len(log')].op = "restore" => x' = b /\ v' = Zero]_vars
OnlyFiner == [][ns' >= ns /\ (ns' # ns => log'[Len(log')].op = "finer")]_vars
\* an evaluation with the gauge fixed that assembles the preconditioner depends on the state alone, whatever came before
\* what the numbers in the force vector depend on
Effect(g) == [x |-> g.x, pre |-> g.pre, fixed |-> g.fixed, kind |-> g.kind]
Function == Last.op = "evaluate" /\ Judged(f) => Effect(f) = [x |-> x, pre |-> x, fixed |-> TRUE, kind |-> f.kind]
Determined == [][\A k \in {"raw", "full"} : Evaluate(k, FALSE, TRUE) => Effect(f') = [x |-> x, pre |-> x, fixed |-> TRUE, kind |-> k]]_vars
(***************************************************************************)
(* behaviours for a replay                                                  *)
(***************************************************************************)
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE S)
GEval == \E k \in {Pick({"raw", "full"})}, w \in {Pick(1..6)} : Evaluate(k, w = 5, w # 6)
GSet == \E w \in {Pick(1..3)} : IF w = 1 THEN \E i \in {Pick(Given)} : SetGiven(i) ELSE \E i \in {Pick(Here)} : SetKnown(i)
Fine == {m \in Grids : m > ns}
GMore == \E w \in {Pick(1..12)}, i \in {Pick(0..2)}, j \in {Pick(0..4)} :
  CASE w = 1 -> (IF ax < 3 THEN Guess ELSE Get) [] w = 2 -> (IF ax < 2 THEN Axis ELSE Get) [] w = 3 -> (IF ax < 2 THEN Again ELSE Get)
    [] w \in {4, 5} -> (IF Fine # {} THEN \E m \in {Pick(Fine)} : Finer(m, i) ELSE Get)
    [] w \in {6, 7} -> \E m \in {Pick({0, ns, ns - 1} \cup {m \in Grids : m <= ns})} : Coarser(m)
    [] w = 8 -> (IF n > 6 /\ ax < 3 THEN Solve ELSE Get)
    [] w = 9 -> Elsewhere(i) [] w \in {10, 11} -> SetWrong(j) [] OTHER -> ProductWrong(j)
GNext == \E w \in {Pick(1..20)}, i \in {Pick(0..3)} :
  CASE w <= 5 -> GEval [] w <= 9 -> GSet [] w <= 12 -> Step(i) [] w = 13 -> Save [] w \in {14, 15} -> (IF b # Unknown THEN Restore ELSE Save)
    [] w = 16 -> Still [] w = 17 -> Product(i)
    [] w = 18 -> (IF f.kind = "full" /\ Judged(f) /\ pre = f.x THEN (IF i = 3 THEN ApplyWrong(i) ELSE Apply(i)) ELSE GEval)
    [] OTHER -> GMore
GSpec == Init /\ [][GNext]_vars
GEmit == IF n = MaxOps THEN PrintT("@@" \o ToJson([ops |-> log, defs |-> defs])) ELSE TRUE
=============================================================================
