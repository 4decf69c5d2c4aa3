------------------------------ MODULE Outputs ------------------------------
(* The forms an output takes (in-memory result, result file, archive, JSON text, solver struct) and the operations   *)
(* between them.  `ver` is the content; saving and loading never changes it.  `lost` are optional quantities that a  *)
(* file of an older version lacks (they load as their documented fall-back), `broken` says a file lacks required     *)
(* content or is no such file at all; loading that is refused and yields nothing.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVer, MaxOps, Random, Emitting
VARIABLES rep, ver, lost, broken, have, ops
vars == <<rep, ver, lost, broken, have, ops>>
\* wout: result object in Python; nc: result file; json: text; cpp: the solver's result struct; oq: full in-memory output; h5: its archive
Edges == { <<"nc_save", "wout", "nc">>, <<"nc_save_over", "wout", "nc">>, <<"nc_load", "nc", "wout">>, <<"nc_load_wrapper", "nc", "wout">>, <<"json_dump", "wout", "json">>, <<"json_load", "json", "wout">>,
           <<"dict_trip", "wout", "wout">>, <<"to_cpp", "wout", "cpp">>, <<"from_cpp", "cpp", "wout">>, <<"copy", "wout", "wout">>,
           <<"h5_save", "oq", "h5">>, <<"h5_save_over", "oq", "h5">>, <<"h5_load", "h5", "oq">>, <<"oq_wout", "oq", "wout">> }
Breaks == {"drop_required", "truncate", "not_a_file_of_its_kind", "empty", "gone"}
Olds == {"lambda", "rfp", "history", "currents", "optional1d", "label", "ancient"}
Room == Len(ops) < MaxOps
Log(o) == ops' = IF Emitting THEN Append(ops, o) ELSE Append(ops, 0)
Init == rep \in {"wout", "oq"} /\ ver = 0 /\ lost = {} /\ broken = "no" /\ have = TRUE /\ ops = <<>>
Reads == {"nc_load", "nc_load_wrapper", "h5_load"}
Convert(e) ==
   /\ Room /\ e[2] = rep
   \* the solver's struct has room for every quantity: what an old file lacks would have to be made up
   /\ e[1] \in {"to_cpp", "json_dump", "dict_trip"} => lost = {}
   /\ IF broken /= "no" /\ e[1] \in Reads
        THEN /\ Log([op |-> e[1], from |-> e[2], to |-> e[3], verdict |-> "error", ver |-> ver])
             /\ rep' = IF rep = "nc" THEN "wout" ELSE "oq"        \* carry on with what was saved
             /\ broken' = "no" /\ UNCHANGED <<ver, lost, have>>
        ELSE /\ Log([op |-> e[1], from |-> e[2], to |-> e[3], verdict |-> "ok", ver |-> ver])
             /\ rep' = e[3] /\ UNCHANGED <<ver, lost, broken, have>>
Edit == Room /\ rep \in {"wout", "oq"} /\ ver < MaxVer /\ ver' = ver + 1 /\ Log([op |-> "edit", from |-> rep, to |-> rep, verdict |-> "ok", ver |-> ver + 1]) /\ UNCHANGED <<rep, lost, broken, have>>
Break(b) == Room /\ rep \in {"nc", "h5"} /\ broken = "no" /\ broken' = b
            /\ Log([op |-> b, from |-> rep, to |-> rep, verdict |-> "ok", ver |-> ver]) /\ UNCHANGED <<rep, ver, lost, have>>
Age(o) == Room /\ rep = "nc" /\ broken = "no" /\ o \notin lost /\ lost' = lost \cup {o}
          /\ Log([op |-> "age", what |-> o, from |-> rep, to |-> rep, verdict |-> "ok", ver |-> ver]) /\ UNCHANGED <<rep, ver, broken, have>>
Pick(S) == IF Random THEN {RandomElement(IF Len(ops) >= 0 THEN S ELSE {})} ELSE S
Here == {e \in Edges : e[2] = rep}
Next == \/ (\E e \in Pick(Here) : Convert(e))
        \/ Edit
        \/ (\E b \in Pick(Breaks) : Break(b))
        \/ (\E o \in Pick(Olds) : Age(o))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
ContentKept == [][rep' /= rep => ver' = ver]_vars
NeverFromNothing == [][(broken /= "no" /\ rep' /= rep) => broken' = "no" /\ ver' = ver]_vars
NoDeadEnd == Here /= {}
Emit == IF Emitting /\ Len(ops) = MaxOps THEN PrintT("@@" \o ToJson([ops |-> ops])) ELSE TRUE
=============================================================================
