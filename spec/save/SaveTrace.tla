------------------------------ MODULE SaveTrace ------------------------------
(* Validates recorded saves: each record is what a reader of the destination saw at every file operation, *)
(* how each save ended and what was left in the folder.  A record is accepted iff some behaviour of        *)
(* AtomicSave explains it; accepted record numbers are printed.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES idx, pos, dest, published, verdict, litter
Trace == ndJsonDeserialize("trace.ndjson")
Savers == {"new", "other"}
R == Trace[idx]
tvars == <<idx, pos, dest, published, verdict, litter>>
A == INSTANCE AtomicSave WITH Initial <- "old"
Init == idx \in 1..Len(Trace) /\ pos = 1 /\ dest = Trace[idx].initial /\ published = {} /\ verdict = [s \in Savers |-> "running"] /\ litter = {}
Ev == R.events[pos]
Live == pos <= Len(R.events)
Hidden == Live /\ (\E s \in Savers : A!Publish(s)) /\ UNCHANGED <<idx, pos>>
Look == Live /\ Ev[1] = "look" /\ Ev[2] = dest /\ pos' = pos + 1 /\ UNCHANGED <<idx, dest, published, verdict, litter>>
End == /\ Live /\ Ev[1] = "end" /\ pos' = pos + 1 /\ UNCHANGED idx
       /\ LET s == Ev[2] v == Ev[3] IN
          \/ v = "ok" /\ A!Ok(s)
          \/ v = "failed" /\ A!Fail(s)
          \/ v = "late" /\ A!Ok(s)          \* the fault came after the new version was already in place
          \/ v = "died" /\ A!Die(s)
Final == /\ Live /\ Ev[1] = "final" /\ Ev[2] = dest
         /\ (Ev[3] # "0" => \E s \in Savers : verdict[s] = "died")
         /\ pos' = pos + 1 /\ UNCHANGED <<idx, dest, published, verdict, litter>>
         /\ PrintT("@@ACC" \o ToJson(idx))
Next == Hidden \/ Look \/ End \/ Final
TSpec == Init /\ [][Next]_tvars
==============================================================================
