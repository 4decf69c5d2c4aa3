----------------------------- MODULE AtomicSave -----------------------------
(* What a user may rely on when saving an output: the destination jumps from one complete version to    *)
(* another in a single step, a save that reports success has published its version, a save that reports *)
(* failure has published nothing and left nothing behind.                                               *)
EXTENDS Integers, FiniteSets
CONSTANTS Savers, Initial                 \* Initial: version at the destination before any save ("none" or "old")
VARIABLES dest, published, verdict, litter
avars == <<dest, published, verdict, litter>>
Versions == {Initial} \cup Savers
AInit == dest = Initial /\ published = {} /\ verdict = [s \in Savers |-> "running"] /\ litter = {}
\* working files may come and go while a save runs
Work(s) == verdict[s] = "running" /\ litter' \in {litter \cup {s}, litter \ {s}} /\ UNCHANGED <<dest, published, verdict>>
Publish(s) == /\ verdict[s] = "running" /\ s \notin published
              /\ dest' = s /\ published' = published \cup {s} /\ litter' = litter \ {s} /\ UNCHANGED verdict
Ok(s)   == verdict[s] = "running" /\ s \in published /\ s \notin litter /\ verdict' = [verdict EXCEPT ![s] = "ok"] /\ UNCHANGED <<dest, published, litter>>
Fail(s) == verdict[s] = "running" /\ s \notin published /\ s \notin litter /\ verdict' = [verdict EXCEPT ![s] = "failed"] /\ UNCHANGED <<dest, published, litter>>
\* the process dies: whatever was published stays, a working file may stay
Die(s)  == verdict[s] = "running" /\ verdict' = [verdict EXCEPT ![s] = "died"] /\ UNCHANGED <<dest, published, litter>>
ANext == \E s \in Savers : Work(s) \/ Publish(s) \/ Ok(s) \/ Fail(s) \/ Die(s)
ASpec == AInit /\ [][ANext]_avars
NothingHalfDone == dest \in Versions
OkMeansPublished == \A s \in Savers : verdict[s] = "ok" => s \in published
FailureLeavesNothing == \A s \in Savers : verdict[s] = "failed" => (s \notin published /\ s \notin litter)
=============================================================================
