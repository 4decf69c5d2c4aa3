------------------------------ MODULE Convert ------------------------------
(* Conversions between the classic namelist format and the JSON format, as scoped operations: a conversion creates  *)
(* temporary files and may change the working directory; whatever happens (success, a failing or vanished converter, *)
(* a full disk, a Ctrl-C during the conversion, an exception in the caller's block) every file it made is gone and   *)
(* the working directory is back once its scope has ended, and a failure is never swallowed.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxDepth, MaxSteps, Random, Emitting
VARIABLES stack,   \* open scopes, innermost last: [api, made: files owned by the scope]
          conv,    \* the conversion in progress: [api, fault, pc, made, cwd] or "none"
          cwd,     \* "home" or "tmp"
          files,   \* temporary files that exist: ids
          next, ops
vars == <<stack, conv, cwd, files, next, ops>>

Scoped == {"ctx_json", "ctx_classic"}
\* the calls that go through the external converter, and the faults that can strike them
External == {"ctx_json", "from_file", "i2j", "i2j_cwd"}
ExtFaults == {"none", "exe_missing", "exe_noexec", "exe_fail", "exe_nothing", "exe_killed", "exe_sigint", "copyin", "copyout", "input_missing"}
Faults(a) == IF a = "ctx_classic" THEN {"none", "write", "badjson", "input_missing", "badtype"}
             ELSE IF a = "ctx_json" THEN ExtFaults
             ELSE IF a = "from_file" THEN ExtFaults \cup {"exe_garbage"}
             ELSE ExtFaults \ {"copyout"}           \* these two calls hand the result file itself to the caller
Pass == {"pass_json", "pass_classic"}               \* already in the wanted format: nothing is made
None == [api |-> "none", fault |-> "none", pc |-> "none", made |-> {}]

Log(o) == ops' = IF Emitting THEN Append(ops, o) ELSE ops
Init == stack = <<>> /\ conv = None /\ cwd = "home" /\ files = {} /\ next = 1 /\ ops = <<>>

Room == Emitting => Len(ops) < MaxOps
Bounded == next <= MaxSteps

Begin(a, f) == /\ conv.api = "none" /\ Room /\ Bounded /\ Len(stack) < MaxDepth
               /\ conv' = [api |-> a, fault |-> f, pc |-> "started", made |-> {}]
               /\ UNCHANGED <<stack, cwd, files, next, ops>>
\* an external conversion: enter a fresh temporary folder, copy the input in, run the tool, copy the result out
Mk(S) == files' = files \cup S /\ conv' = [conv EXCEPT !.made = @ \cup S]
Step(pc, pc2, fs, S, c) ==
   /\ conv.api \in External /\ conv.pc = pc /\ conv.fault \notin fs
   /\ files' = files \cup S /\ cwd' = c /\ next' = next + Cardinality(S)
   /\ conv' = [conv EXCEPT !.pc = pc2, !.made = @ \cup S]
   /\ UNCHANGED <<stack, ops>>
ExtSteps == \/ Step("started", "entered", {"exe_missing", "exe_noexec", "input_missing"}, {next}, "tmp")
            \/ Step("entered", "copied", {"copyin"}, {next}, "tmp")
            \/ Step("copied", "ran", {"exe_fail", "exe_nothing", "exe_killed", "exe_sigint"}, {next}, "tmp")
            \/ Step("ran", "out", {"copyout"}, {next}, "tmp")
\* leaving the temporary folder: everything in it goes, the result (if any) stays
Finish == /\ conv.api \in External /\ conv.pc = "out"
          /\ cwd' = "home"
          /\ LET res == CHOOSE x \in conv.made : \A y \in conv.made : y <= x IN
             /\ files' = files \ (conv.made \ (IF conv.api = "ctx_json" THEN {res} ELSE {}))
             /\ stack' = IF conv.api = "ctx_json" THEN Append(stack, [api |-> "ctx_json", made |-> {res}]) ELSE stack
          /\ conv' = None /\ UNCHANGED next
          /\ Log([op |-> "call", api |-> conv.api, fault |-> conv.fault, verdict |-> IF conv.fault = "exe_garbage" THEN "error" ELSE "ok", open |-> Len(stack'), temps |-> Cardinality(files')])
ClassicOk == /\ conv.api = "ctx_classic" /\ conv.fault = "none"
             /\ files' = files \cup {next, next + 1} /\ next' = next + 2
             /\ stack' = Append(stack, [api |-> "ctx_classic", made |-> {next, next + 1}])
             /\ conv' = None /\ UNCHANGED cwd
             /\ Log([op |-> "call", api |-> conv.api, fault |-> conv.fault, verdict |-> "ok", open |-> Len(stack'), temps |-> Cardinality(files')])
Strikes == \/ conv.api = "ctx_classic" /\ conv.fault /= "none"
           \/ conv.fault \in {"exe_missing", "exe_noexec", "input_missing"} /\ conv.pc = "started"
           \/ conv.fault = "copyin" /\ conv.pc = "entered"
           \/ conv.fault \in {"exe_fail", "exe_nothing", "exe_killed", "exe_sigint"} /\ conv.pc = "copied"
           \/ conv.fault = "copyout" /\ conv.pc = "ran"
\* a failure undoes what this conversion did, and is reported to the caller
Fail == /\ conv.api /= "none" /\ Strikes
        /\ files' = files \ conv.made /\ cwd' = "home" /\ conv' = None /\ UNCHANGED <<stack, next>>
        /\ Log([op |-> "call", api |-> conv.api, fault |-> conv.fault, verdict |-> IF conv.fault = "exe_sigint" THEN "interrupt" ELSE "error", open |-> Len(stack), temps |-> Cardinality(files')])
PassThrough(a) == /\ conv.api = "none" /\ Room /\ Bounded /\ Len(stack) < MaxDepth
                  /\ stack' = Append(stack, [api |-> a, made |-> {}]) /\ next' = next + 1
                  /\ Log([op |-> "call", api |-> a, fault |-> "none", verdict |-> "ok", open |-> Len(stack'), temps |-> Cardinality(files)])
                  /\ UNCHANGED <<conv, cwd, files>>
\* the caller's block ends: normally, by an exception, in another folder, or after another process did the same
Leave(how) == /\ conv.api = "none" /\ stack /= <<>>
              /\ LET t == stack[Len(stack)] IN files' = files \ t.made
              /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
              /\ Log([op |-> "leave", how |-> how, verdict |-> IF how \in {"raise", "kbd"} THEN "propagates" ELSE "ok", open |-> Len(stack'), temps |-> Cardinality(files')])
              /\ UNCHANGED <<conv, cwd, next>>
How == {"normal", "raise", "kbd", "chdir", "child"}   \* child: another process converts the same input meanwhile
Pick(S) == IF Random THEN {RandomElement(IF next > 0 THEN S ELSE {})} ELSE S
PickF(S) == IF Random THEN {IF RandomElement(IF next > 0 THEN 1..2 ELSE {}) = 1 THEN "none" ELSE RandomElement(IF next > 0 THEN S ELSE {})} ELSE S
Apis == External \cup {"ctx_classic"}
Next == \/ (\E a \in Pick(Apis) : \E f \in PickF(Faults(a)) : Begin(a, f))
        \/ ExtSteps \/ Finish \/ ClassicOk \/ Fail
        \/ (\E a \in Pick(Pass) : (Random => RandomElement(IF next > 0 THEN 1..3 ELSE {}) = 1) /\ PassThrough(a))
        \/ (\E h \in Pick(How) : Leave(h))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Owned == UNION {stack[i].made : i \in 1..Len(stack)}
NothingLeft == conv.api = "none" => files = Owned
CwdBack == conv.api = "none" => cwd = "home"
Disjoint == \A i, j \in 1..Len(stack) : i /= j => stack[i].made \cap stack[j].made = {}
NoSwallow == [][\A k \in {1} : (conv.api \in Scoped /\ conv'.api = "none" /\ conv.fault /= "none") => Len(stack') = Len(stack)]_vars
Emit == IF Emitting /\ Len(ops) >= MaxOps /\ conv.api = "none" /\ stack = <<>> THEN PrintT("@@" \o ToJson([ops |-> ops])) ELSE TRUE
GSpec == Spec
=============================================================================
