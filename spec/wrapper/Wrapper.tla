------------------------------ MODULE Wrapper ------------------------------
(* The optimisation wrapper: a problem (parameters, boundary, resolution), a cached result, and a flag-  *)
(* free specification of when reading a result has to solve: exactly when something was assigned since   *)
(* the last successful solve.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Surfaces, Resolutions, Params, Readers, MaxVer, MaxOps, Random, Emitting
VARIABLES kind,      \* "input": built from an input, "wout": loaded from a result file
          par, surf, ver, res, version,   \* parameter versions, current surface, surface versions, resolution, fresh-version counter
          changed, cached, solves, ops, last
vars == <<kind, par, surf, ver, res, version, changed, cached, solves, ops, last>>
Problem == [par |-> par, surf |-> surf, ver |-> ver[surf], res |-> res]
Res == {<<4, 1>>, <<5, 2>>}
ResBig == {<<4, 1>>, <<5, 2>>, <<3, 0>>, <<6, 1>>}
None == [par |-> [p \in Params |-> -1], surf |-> 0, ver |-> -1, res |-> <<0, 0>>]
S0 == CHOOSE s \in Surfaces : \A t \in Surfaces : s <= t
Init == /\ kind \in {"input", "wout"} /\ par = [p \in Params |-> 0] /\ surf = S0 /\ ver = [s \in Surfaces |-> 0] /\ version = 0
        /\ res = (CHOOSE r \in Resolutions : TRUE) /\ changed = (kind = "input") /\ solves = 0 /\ ops = <<>>
        /\ cached = IF kind = "wout" THEN Problem ELSE None
        /\ last = "none"
Op(o) == ops' = IF Emitting THEN Append(ops, o) ELSE ops
Fresh == version' = version + 1
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
SetParam == /\ kind = "input" /\ version < MaxVer /\ \E p \in Pick(Params) :
              /\ par' = [par EXCEPT ![p] = version + 1] /\ Fresh /\ changed' = TRUE
              /\ Op([op |-> "param", which |-> p, v |-> version + 1, solve |-> FALSE])
            /\ last' = "none" /\ UNCHANGED <<kind, surf, ver, res, cached, solves>>
\* shaping a surface matters only while it is the current boundary
Shape == /\ version < MaxVer /\ \E s \in Pick(Surfaces) :
              /\ ver' = [ver EXCEPT ![s] = version + 1] /\ Fresh /\ changed' = (changed \/ s = surf)
              /\ Op([op |-> "shape", which |-> s, v |-> version + 1, solve |-> FALSE])
         /\ last' = "none" /\ UNCHANGED <<kind, par, surf, res, cached, solves>>
Replace == /\ kind = "input" /\ \E s \in Pick(Surfaces) :
              /\ surf' = s /\ changed' = (changed \/ s # surf)
              /\ Op([op |-> "replace", which |-> s, v |-> 0, solve |-> FALSE])
           /\ last' = "none" /\ UNCHANGED <<kind, par, ver, res, version, cached, solves>>
Resize == /\ kind = "input" /\ \E r \in Pick(Resolutions \ {res}) :
              /\ res' = r /\ changed' = TRUE
              /\ Op([op |-> "resize", which |-> r[1], v |-> r[2], solve |-> FALSE])
          /\ last' = "none" /\ UNCHANGED <<kind, par, surf, ver, version, cached, solves>>
GetInput == /\ Op([op |-> "input", which |-> 0, v |-> 0, solve |-> FALSE]) /\ last' = "none"
            /\ UNCHANGED <<kind, par, surf, ver, res, version, changed, cached, solves>>
Read(r, ok) ==
   /\ IF ~changed THEN /\ last' = "served" /\ UNCHANGED <<changed, cached, solves>>
      ELSE IF kind = "wout" THEN last' = "refused" /\ UNCHANGED <<changed, cached, solves>>
      ELSE /\ solves' = solves + 1
           /\ IF ok THEN changed' = FALSE /\ cached' = Problem /\ last' = "served"
                    ELSE last' = "failed" /\ UNCHANGED <<changed, cached>>
   /\ Op([op |-> "read", which |-> r, v |-> IF ok THEN 1 ELSE 0, solve |-> changed /\ kind = "input",
          outcome |-> IF ~changed THEN "served" ELSE IF kind = "wout" THEN "refused" ELSE IF ok THEN "served" ELSE "failed"])
   /\ UNCHANGED <<kind, par, surf, ver, res, version>>
DoRead == \E r \in Pick(Readers) : \E k \in Pick(1..3) : Read(r, k < 3)
Next == SetParam \/ Shape \/ Replace \/ Resize \/ GetInput \/ DoRead
Bounded == IF Emitting THEN Len(ops) < MaxOps ELSE solves < MaxOps
Spec == Init /\ [][Bounded /\ Next]_vars
\* weight the generator towards reads: pick the kind of operation first
GNext == \E k \in {RandomElement(1..10)} :
           CASE k <= 2 -> SetParam [] k = 3 -> Shape [] k = 4 -> Replace [] k = 5 -> IF kind = "input" THEN Resize ELSE Shape [] k = 6 -> GetInput [] OTHER -> DoRead
GFix == \E k \in {RandomElement(1..10)} : IF kind = "wout" THEN (IF k <= 2 THEN Shape ELSE IF k = 3 THEN GetInput ELSE DoRead)
           ELSE CASE k <= 2 -> SetParam [] k = 3 -> Shape [] k = 4 -> Replace [] k = 5 -> Resize [] k = 6 -> GetInput [] OTHER -> DoRead
GSpec == Init /\ [][Bounded /\ GFix]_vars
\* properties
FreshResults == last = "served" => cached = Problem
NoStale == (~changed) => cached = Problem
WoutNeverSolves == kind = "wout" => solves = 0
SolveIffChanged == [][ (solves' # solves) => (changed /\ kind = "input") ]_vars
FailureRetries == last = "failed" => changed
Emit == (Emitting /\ Len(ops) = MaxOps) => PrintT("@@" \o ToJson([kind |-> kind, ops |-> ops]))
=============================================================================
