------------------------------- MODULE Vacuum -------------------------------
(* The vacuum contribution of a free-boundary solve.

   A solve is a sequence of stages (grids), each a sequence of force evaluations.  What the rest of
   the solver does enters through nondeterminism: whether the residual left by the evaluation before
   lies below the activation threshold (low), whether the geometry of this evaluation is usable
   (badjac - the evaluation is then cut short), and whether the step taken from it is rolled back
   (the iteration counter then does not advance).

   vac: "off" -> "starting" -> "started" -> "on".  "starting" exists only inside an evaluation; "started" lasts to the
   end of the iteration.  An evaluation that reaches "started" returns to the checkpointed geometry with zero
   velocity and restarts the damping (soft).                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxEvals, MaxStages, Skip0, Grows, TraceFile

VARIABLES free, vac, stage, iter1, iter2, skip, full, known, first, soft, evals, low, seen, k
vars == <<free, vac, stage, iter1, iter2, skip, full, known, first, soft, evals, low, seen, k>>
(* skip: the vacuum field is computed anew at least every `skip` iterations; full: iteration of the last
   full computation; known: the evaluation (or a previous one on this boundary) has the vacuum pressure at
   hand; first: no evaluation of this stage yet; soft: the last evaluation was a soft start; seen: the states
   the solve went through *)

(* ------------------------------------------------------------------ one evaluation *)
Gate == free /\ (iter2 > 1 \/ vac = "started")
Turning(lo) == vac # "on" /\ lo
(* state inside the evaluation, after the residual of the evaluation before has been looked at *)
Turned(lo) == IF ~Turning(lo) THEN vac ELSE IF vac = "off" THEN "starting" ELSE "on"
IsFull(lo) == Turning(lo) \/ (iter2 - iter1) % skip = 0
Max(a, b) == IF a > b THEN a ELSE b
After(lo) == IF Turned(lo) = "starting" THEN "started" ELSE Turned(lo)
(* vac, soft, full, skip, known after an evaluation with a usable geometry *)
Eval(lo, grow) ==
  IF ~Gate THEN [vac |-> vac, soft |-> FALSE, full |-> full, skip |-> skip, known |-> known]
  ELSE [vac |-> After(lo), soft |-> (After(lo) = "started"),
        full |-> IF IsFull(lo) THEN iter2 ELSE full,
        skip |-> IF IsFull(lo) THEN Max(skip, grow) ELSE skip,
        known |-> After(lo) # "off"]
EndOf(v) == IF v = "started" THEN "on" ELSE v

Init == /\ free \in BOOLEAN /\ vac \in {"off", "started"} /\ (vac = "started" => free)      \* "started": hot start
        /\ stage = 1 /\ iter1 = 1 /\ iter2 = 1 /\ skip = Skip0 /\ full = 0 /\ known = FALSE /\ first = TRUE /\ soft = FALSE /\ evals = 0 /\ low = FALSE
        /\ seen = <<vac>> /\ k = 0
Note(v) == IF v = seen[Len(seen)] THEN seen ELSE Append(seen, v)
Evaluate == \E bad, roll, lo2 \in BOOLEAN, g \in Grows :
  /\ evals < MaxEvals /\ evals' = evals + 1 /\ first' = FALSE
  /\ LET e == IF bad THEN [vac |-> vac, soft |-> FALSE, full |-> full, skip |-> skip, known |-> known] ELSE Eval(low, g)
         i1 == IF e.soft THEN iter2 ELSE iter1
         rolled == bad \/ roll
         retry == bad /\ iter2 = 1                    \* begins anew with a better axis; the iteration does not end
         v2 == IF retry THEN e.vac ELSE EndOf(e.vac)
     IN /\ vac' = v2 /\ soft' = e.soft /\ full' = e.full /\ skip' = e.skip /\ known' = e.known
        /\ seen' = Note(v2)
        /\ iter1' = (IF rolled THEN iter2 ELSE i1) /\ iter2' = (IF rolled THEN iter2 ELSE iter2 + 1)
        /\ low' = (IF bad THEN low ELSE lo2)          \* a cut-short evaluation leaves the old residuals
  /\ UNCHANGED <<free, stage, k>>
Refine == \E finer \in BOOLEAN :
  /\ stage < MaxStages /\ stage' = stage + 1 /\ first' = TRUE /\ soft' = FALSE /\ iter1' = 1 /\ iter2' = 1
  /\ vac' = (IF finer /\ free /\ vac = "on" THEN "started" ELSE vac)
  /\ known' = (IF finer THEN FALSE ELSE known)
  /\ skip' = (IF finer THEN Skip0 ELSE skip)
  /\ seen' = Note(vac') /\ UNCHANGED <<free, full, evals, low, k>>
Next == Evaluate \/ Refine
Spec == Init /\ [][Next]_vars

(* fixed-boundary solves never touch it *)
FixedNever == ~free => vac = "off" /\ ~known /\ full = 0
(* off, started, on in this order; a finer grid starts again from "started" *)
InOrder == \A i \in 1..(Len(seen) - 1) : <<seen[i], seen[i + 1]>> \in {<<"off", "started">>, <<"started", "on">>, <<"off", "on">>, <<"on", "started">>}
NeverOff == [][vac # "off" => vac' # "off"]_vars
(* it is not turned on in the first iteration, nor with large forces *)
OnlyWhenReady == [][vac = "off" /\ vac' # "off" => low /\ iter2 > 1]_vars
(* once on, the vacuum pressure is at hand; "started" at the begin of an evaluation (hot or refined solve) takes it into account there *)
AlwaysKnown == vac = "on" => known
FirstKnows == [][(first /\ vac = "started" /\ vac' = "on") => known' /\ full' = iter2]_vars
SoftStart == [][(vac = "off" /\ vac' # "off") => soft' /\ full' = iter2 /\ iter1' = iter2]_vars
Fresh == (vac # "off" /\ known /\ ~first) => iter2 - full <= skip

(* ------------------------------------------------------------------ recorded solves *)
(* events: [e |-> "solve", free, hot, skip], [e |-> "stage", finer], [e |-> "eval", low, bad, rolled, grow, iter2, and, for
   evaluations that were not rolled back (they are reported): vac, iter1, full, soft, known; else vac = "?"].
   low = "?" when the residual is too close to the threshold to call.                              *)
Trace == ndJsonDeserialize(TraceFile)
Expect(ev, lo) == IF ev.bad THEN [vac |-> vac, soft |-> FALSE, full |-> full, skip |-> skip, known |-> known] ELSE Eval(lo, ev.grow)
(* a bad geometry that the time step control itself returned to the checkpoint counts as an iteration *)
Iter1(ev, x) == IF x.soft \/ ev.bad THEN iter2 ELSE iter1
Differs(ev, x) ==
  IF ev.iter2 # iter2 THEN "the iteration counter is " \o ToString(ev.iter2) \o ", expected " \o ToString(iter2)
  ELSE IF ev.vac = "?" THEN ""
  ELSE IF ev.vac # x.vac THEN "the vacuum contribution is " \o ev.vac \o ", expected " \o x.vac
  ELSE IF ev.full # x.full THEN "the last full computation of the vacuum field was in iteration " \o ToString(ev.full) \o ", expected " \o ToString(x.full)
  ELSE IF ev.iter1 # Iter1(ev, x) THEN "the damping was restarted in iteration " \o ToString(ev.iter1) \o ", expected " \o ToString(Iter1(ev, x))
  ELSE IF x.soft /\ ~ev.soft THEN "the step at activation did not start from the checkpointed geometry at rest"
  ELSE IF x.known # ev.known THEN (IF x.known THEN "the vacuum pressure does not enter the forces" ELSE "a vacuum pressure enters the forces")
  ELSE ""
Adopt(ev, x) == IF ev.vac = "?" THEN x ELSE [x EXCEPT !.vac = ev.vac, !.full = ev.full, !.known = ev.known]
TInit == /\ k = 1 /\ free = FALSE /\ vac = "off" /\ stage = 0 /\ iter1 = 1 /\ iter2 = 1 /\ skip = 1 /\ full = 0 /\ known = FALSE /\ first = TRUE /\ soft = FALSE /\ evals = 0 /\ low = FALSE /\ seen = <<"off">>
TNext ==
  /\ k <= Len(Trace) /\ k' = k + 1
  /\ IF k < Len(Trace) THEN TRUE ELSE PrintT("@@DONE" \o ToJson(k))
  /\ LET ev == Trace[k] IN
     CASE ev.e = "solve" ->
            /\ free' = ev.free /\ vac' = (IF ev.hot /\ ev.free THEN "started" ELSE "off") /\ stage' = 0 /\ iter1' = 1 /\ iter2' = 1 /\ skip' = ev.skip /\ full' = 0
            /\ known' = FALSE /\ first' = TRUE /\ soft' = FALSE /\ evals' = ev.skip /\ low' = FALSE /\ seen' = seen
       [] ev.e = "stage" ->
            /\ stage' = stage + 1 /\ first' = TRUE /\ soft' = FALSE /\ iter1' = 1 /\ iter2' = 1
            /\ vac' = (IF stage > 0 /\ ev.finer /\ free /\ vac = "on" THEN "started" ELSE vac)
            /\ known' = (IF ev.finer THEN FALSE ELSE known) /\ skip' = (IF ev.finer THEN evals ELSE skip) /\ UNCHANGED <<free, full, evals, low, seen>>
       [] ev.e = "eval" ->
            LET lo == ev.low
                x == Expect(ev, lo)
                d == Differs(ev, x)
                y == Adopt(ev, x)
                i1 == IF ev.vac = "?" THEN Iter1(ev, x) ELSE ev.iter1
            IN /\ IF d = "" THEN TRUE ELSE PrintT("@@REJECT" \o ToJson([record |-> k, why |-> d]))
               /\ vac' = (IF ev.bad /\ ev.iter2 = 1 THEN y.vac ELSE EndOf(y.vac)) /\ soft' = x.soft /\ full' = y.full /\ skip' = y.skip /\ known' = y.known /\ first' = FALSE
               /\ iter1' = (IF ev.rolled THEN ev.iter2 ELSE i1) /\ iter2' = (IF ev.rolled THEN ev.iter2 ELSE ev.iter2 + 1)
               /\ UNCHANGED <<free, stage, evals, low, seen>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
