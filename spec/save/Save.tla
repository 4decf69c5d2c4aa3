-------------------------------- MODULE Save --------------------------------
(* The protocol: create a fresh working file next to the destination, write it piece by piece, close it, *)
(* move it over the destination; on any failure remove the working file.  The file system is modelled as *)
(* names pointing to files (inodes); a file's content is the list of pieces written by each saver.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Savers, Pieces, MaxFaults, Initial, SharedName, CleanReplace, None
VARIABLES names,      \* name -> inode or None;  names: DestName and one working name per saver (or a shared one)
          content,    \* inode -> sequence of <<saver, piece>>
          pc, tmp, at, faults, verdict
vars == <<names, content, pc, tmp, at, faults, verdict>>
Complete(s) == [i \in 1..Pieces |-> <<s, i>>]
Old == << <<Initial, 1>> >>
TmpName(s) == IF SharedName THEN <<"tmp", "shared">> ELSE <<"tmp", s>>
DestName == <<"dest", "dest">>
Names == {DestName} \cup {TmpName(s) : s \in Savers}
Inode(s) == <<"inode", s>>
Init == /\ names = [n \in Names |-> IF n = DestName /\ Initial # "none" THEN <<"inode", Initial>> ELSE None]
        /\ content = [i \in {<<"inode", Initial>>} \cup {Inode(s) : s \in Savers} |-> IF i = <<"inode", Initial>> THEN Old ELSE <<>>]
        /\ pc = [s \in Savers |-> "create"] /\ tmp = [s \in Savers |-> None] /\ at = [s \in Savers |-> 0]
        /\ faults = 0 /\ verdict = [s \in Savers |-> "running"]
Create(s) == /\ pc[s] = "create"
             /\ LET n == TmpName(s) ino == IF names[n] = None THEN Inode(s) ELSE names[n] IN
                /\ names' = [names EXCEPT ![n] = ino] /\ tmp' = [tmp EXCEPT ![s] = ino] /\ content' = [content EXCEPT ![ino] = <<>>]
             /\ pc' = [pc EXCEPT ![s] = "write"] /\ UNCHANGED <<at, faults, verdict>>
Write(s) == /\ pc[s] = "write" /\ at[s] < Pieces
            /\ content' = [content EXCEPT ![tmp[s]] = Append(@, <<s, at[s] + 1>>)] /\ at' = [at EXCEPT ![s] = @ + 1]
            /\ UNCHANGED <<names, pc, tmp, faults, verdict>>
Close(s) == pc[s] = "write" /\ at[s] = Pieces /\ pc' = [pc EXCEPT ![s] = "move"] /\ UNCHANGED <<names, content, tmp, at, faults, verdict>>
Move(s) == /\ pc[s] = "move" /\ names[TmpName(s)] # None
           /\ names' = [names EXCEPT ![DestName] = names[TmpName(s)], ![TmpName(s)] = None]
           /\ pc' = [pc EXCEPT ![s] = "end"] /\ UNCHANGED <<content, tmp, at, faults, verdict>>
\* the working file was taken away by somebody else
MoveMissing(s) == pc[s] = "move" /\ names[TmpName(s)] = None /\ pc' = [pc EXCEPT ![s] = "clean"] /\ UNCHANGED <<names, content, tmp, at, faults, verdict>>
End(s) == pc[s] = "end" /\ verdict[s] = "running" /\ verdict' = [verdict EXCEPT ![s] = "ok"] /\ UNCHANGED <<names, content, pc, tmp, at, faults>>
Fault(s) == /\ faults < MaxFaults /\ pc[s] \in {"create", "write", "move"} /\ faults' = faults + 1
            /\ pc' = [pc EXCEPT ![s] = IF @ = "create" THEN "gaveup" ELSE IF @ = "move" /\ ~CleanReplace THEN "gaveup" ELSE "clean"]
            /\ UNCHANGED <<names, content, tmp, at, verdict>>
Clean(s) == /\ pc[s] = "clean" /\ names' = [names EXCEPT ![TmpName(s)] = None] /\ pc' = [pc EXCEPT ![s] = "gaveup"]
            /\ UNCHANGED <<content, tmp, at, faults, verdict>>
Raise(s) == pc[s] = "gaveup" /\ verdict[s] = "running" /\ verdict' = [verdict EXCEPT ![s] = "failed"] /\ UNCHANGED <<names, content, pc, tmp, at, faults>>
Kill(s) == verdict[s] = "running" /\ faults < MaxFaults /\ faults' = faults + 1 /\ verdict' = [verdict EXCEPT ![s] = "died"]
           /\ UNCHANGED <<names, content, pc, tmp, at>>
Next == \E s \in {x \in Savers : verdict[x] = "running"} : Create(s) \/ Write(s) \/ Close(s) \/ Move(s) \/ MoveMissing(s) \/ End(s) \/ Fault(s) \/ Clean(s) \/ Raise(s) \/ Kill(s)
Spec == Init /\ [][Next]_vars
\* refinement mapping
IsVersion(c, v) == IF v = Initial THEN c = Old ELSE c = Complete(v)
AbsDest == IF names[DestName] = None THEN Initial
           ELSE LET c == content[names[DestName]] IN
                IF \E v \in Savers \cup {Initial} : IsVersion(c, v) THEN CHOOSE v \in Savers \cup {Initial} : IsVersion(c, v) ELSE "damaged"
AbsPublished == { s \in Savers : pc[s] = "end" }
AbsLitter == { s \in Savers : names[TmpName(s)] # None }
A == INSTANCE AtomicSave WITH dest <- AbsDest, published <- AbsPublished, litter <- AbsLitter
NothingHalfDone == AbsDest \in Savers \cup {Initial}
OkPublished == \A s \in Savers : verdict[s] = "ok" => pc[s] = "end"
FailClean == \A s \in Savers : verdict[s] = "failed" => names[TmpName(s)] = None
Refines == A!ASpec
=============================================================================
