-------------------------------- MODULE Repr --------------------------------
(* The representations of one problem description and the conversions between them.  `ver` identifies the content  *)
(* (every edit makes a new version); a conversion never changes it.  A text may carry an entry that does not fit   *)
(* the declared resolution (`misfit`), and a Python object whose resolution fields were assigned no longer agrees  *)
(* with its tables (`skew`): neither may be converted silently.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVer, MaxOps, Random, Emitting
VARIABLES rep, ver, sched, misfit, skew, report, ops
vars == <<rep, ver, sched, misfit, skew, report, ops>>
Texts == {"json", "cjson"}
\* conversion edges: <<name, from, to, understands schedules>>
Edges == { <<"py_to_json", "py", "json", TRUE>>, <<"py_save", "py", "json", TRUE>>, <<"py_dump", "py", "dict", TRUE>>, <<"py_copy", "py", "py", TRUE>>,
           <<"py_to_cpp", "py", "cpp", TRUE>>, <<"json_to_py", "json", "py", TRUE>>, <<"cjson_to_py", "cjson", "py", TRUE>>,
           <<"dict_to_py", "dict", "py", TRUE>>, <<"json_file_to_py", "json", "py", FALSE>>, <<"cjson_file_to_py", "cjson", "py", FALSE>>,
           <<"json_to_cpp", "json", "cpp", FALSE>>, <<"cjson_to_cpp", "cjson", "cpp", FALSE>>, <<"cpp_to_cjson", "cpp", "cjson", FALSE>>,
           <<"cpp_to_py", "cpp", "py", FALSE>>, <<"cpp_copy", "cpp", "cpp", FALSE>>, <<"cpp_to_h5", "cpp", "h5", FALSE>>, <<"h5_to_cpp", "h5", "cpp", FALSE>> }
TextEdits == {"shuffle", "zeros"}            \* change the text, not its meaning
Misfits == {"m", "n", "negm", "axis"}
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Init == rep = "py" /\ ver = 0 /\ sched \in BOOLEAN /\ misfit = "none" /\ skew = FALSE /\ report = "none" /\ ops = <<>>
Op(k, to, allow) == ops' = IF Emitting THEN Append(ops, [op |-> k, from |-> rep, to |-> to, allow |-> allow, ver |-> ver', was |-> sched]) ELSE ops
\* losing the schedule on the way to the solver structure is meant: only its last entry is the problem's resolution
Good(e) == /\ misfit = "none" /\ ~skew /\ rep = e[2] /\ (sched => e[4])
           /\ rep' = e[3] /\ sched' = (sched /\ e[3] # "cpp") /\ report' = "none" /\ UNCHANGED <<ver, misfit, skew>>
           /\ Op(e[1], e[3], {"same"})
\* a text with an entry that does not fit, or a skewed object: refused, or accepted and reported with everything that fits kept
Bad(e, out) == /\ report = "none" /\ rep = e[2] /\ (sched => e[4]) /\ e[3] \in {"py", "cpp"} /\ e[1] # "py_copy"
               /\ ((misfit # "none" /\ rep \in Texts) \/ skew)
               /\ report' = out /\ rep' = IF out = "refused" THEN rep ELSE e[3]
               /\ misfit' = (IF out = "refused" THEN misfit ELSE "none") /\ skew' = IF out = "refused" THEN skew ELSE FALSE
               /\ UNCHANGED <<ver, sched>> /\ Op(e[1], e[3], {"refused", "reported"})
Edit == rep \in {"py", "cpp"} /\ ~skew /\ report = "none" /\ ver < MaxVer /\ ver' = ver + 1 /\ UNCHANGED <<rep, sched, misfit, skew, report>> /\ Op("edit", rep, {"same"})
TextEdit == \E t \in Pick(TextEdits) : rep \in Texts /\ misfit = "none" /\ UNCHANGED <<rep, ver, sched, misfit, skew, report>> /\ Op(t, rep, {"same"})
Spoil == \E k \in Pick(Misfits) : rep \in Texts /\ misfit = "none" /\ ~sched /\ misfit' = k /\ UNCHANGED <<rep, ver, sched, skew, report>> /\ Op("spoil_" \o k, rep, {"same"})
Skew == \E k \in Pick({"up", "down"}) : rep = "py" /\ ~skew /\ ~sched /\ report = "none" /\ skew' = TRUE /\ UNCHANGED <<rep, ver, sched, misfit, report>> /\ Op("skew_" \o k, rep, {"same"})
Next == (\E e \in Edges : Good(e)) \/ (\E e \in Edges, o \in {"refused", "reported"} : Bad(e, o)) \/ Edit \/ TextEdit \/ Spoil \/ Skew
Out == {e \in Edges : e[2] = rep /\ (sched => e[4])}
BadOut == {e \in Out : e[3] \in {"py", "cpp"} /\ e[1] # "py_copy"}
GNext == \E z \in {RandomElement(1..20)} :
          IF misfit # "none" \/ skew THEN \E e \in Pick(BadOut) : Bad(e, "refused")
          ELSE IF z = 1 /\ rep \in Texts /\ ~sched THEN Spoil ELSE IF z = 2 /\ rep = "py" /\ ~sched THEN Skew
          ELSE IF z <= 4 /\ rep \in Texts THEN TextEdit ELSE IF z <= 6 /\ rep \in {"py", "cpp"} THEN Edit
          ELSE \E e \in Pick(Out) : Good(e)
GInit == Init
\* a walk ends after its first conversion of something that does not fit
Bounded == IF Emitting THEN Len(ops) < MaxOps /\ report # "refused" ELSE TRUE
Spec == Init /\ [][Next]_vars
GSpec == GInit /\ [][Bounded /\ GNext]_vars
\* ---- properties
ContentKept == [][ver' # ver => \E t \in {"py", "cpp"} : rep = t /\ rep' = t]_vars
NeverSilent == [][ (misfit # "none" /\ misfit' = "none") => report' = "reported" ]_vars
NeverSilentSkew == [][ (skew /\ ~skew') => report' = "reported" ]_vars
\* every representation can reach the solver (and every other one): no dead end
RECURSIVE Closure(_, _)
Closure(S, n) == IF n = 0 THEN S ELSE Closure(S \cup {e[3] : e \in {x \in Edges : x[2] \in S}}, n - 1)
NoDeadEnd == Closure({rep}, 6) = {"py", "cpp", "json", "cjson", "dict", "h5"}
Emit == (Emitting /\ (Len(ops) = MaxOps \/ report = "refused")) => PrintT("@@" \o ToJson([ops |-> ops, s0 |-> IF ops = <<>> THEN FALSE ELSE ops[1].was]))
=============================================================================
