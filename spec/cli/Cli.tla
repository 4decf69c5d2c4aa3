-------------------------------- MODULE Cli --------------------------------
(* The command line.  Files lie in folders; a command is called in one folder with the path of an input in any folder.  *)
(*   run F         solves F and writes wout_<name of F>.nc in the folder it is called in                                *)
(*   convert F     writes the same problem as JSON beside F                                                             *)
(*   standalone F  (the C++ program) solves F and writes <F without .json>.out.h5 beside F                              *)
(* Either a command ends with status 0 and exactly that one file is new or replaced, holding the result of the problem  *)
(* F held, or it ends with another status and no file is new, changed or gone.  Nothing is solved that cannot be named. *)
(*                                                                                                                      *)
(* Naming, Order, Status: how an implementation may fall short; with the sound choices the laws hold, with the others   *)
(* TLC finds a command sequence that breaks them.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dirs, Names, Problems, MaxOps, Naming, Order, Status, Emitting
VARIABLES inp,      \* [dir, form, name] -> problem of the input files there are
          res,      \* [kind, dir, name] -> problem whose result the file holds, or "alien" (an older file of someone else)
          blocked,  \* results whose place is taken by a folder
          last,     \* what the last command did: [op, file, dir, status, solved, wrote]
          ops
vars == <<inp, res, blocked, last, ops>>
\* names a program may confuse: two names with the same stem, two that differ by an "input." in the middle
Stem(n) == IF n = "a.v2" THEN "a" ELSE n
Squeezed(n) == IF n = "b_input.c" THEN "b_c" ELSE n
Forms == {"json", "classic", "jsonclassic", "odd"}      \* NAME.json, input.NAME, input.NAME holding JSON, NAME.txt holding JSON
Key(d, f, n) == <<d, f, n>>
\* problems: numbers are solvable (and differ); the others are not
Solvable(p) == p \in {"p1", "p2", "p3", "loose"}         \* loose: not converged, but asked to be returned
Readable(p) == p \notin {"garbage", "empty", "missing"}
Init == inp = <<>> /\ res = <<>> /\ blocked = {} /\ last = [op |-> "none"] /\ ops = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Log(x) == ops' = IF Emitting THEN Append(ops, x) ELSE Append(ops, 0)
Pick(S) == IF Emitting THEN {RandomElement(IF Len(ops) >= 0 THEN S ELSE S)} ELSE S
Rec(k) == [dir |-> k[1], form |-> k[2], name |-> k[3]]

\* the classic format cannot ask for results that did not converge
Said(f, p) == IF f = "classic" /\ p = "loose" THEN "fails" ELSE p
Write(d, f, n, p) == /\ (f \in {"classic", "jsonclassic"} => \A g \in {"classic", "jsonclassic"} \ {f} : Key(d, g, n) \notin DOMAIN inp)      \* the same file name
                     /\ inp' = Put(inp, Key(d, f, n), Said(f, p)) /\ last' = [op |-> "none"]
                     /\ Log([op |-> "write", file |-> Rec(Key(d, f, n)), p |-> Said(f, p)]) /\ UNCHANGED <<res, blocked>>
\* what the result is called
RunName(k) == IF Naming = "stem" THEN Stem(k[3]) ELSE k[3]
ConvName(k) == IF Naming = "squeeze" THEN Squeezed(k[3]) ELSE k[3]
Named(k) == k[2] # "odd"
Target(op, k, cwd) == CASE op = "run" -> <<"wout", cwd, RunName(k)>> [] op = "convert" -> <<"json", k[1], ConvName(k)>> [] op = "standalone" -> <<"h5", k[1], k[3]>>
Owner(op, k, cwd) == CASE op = "run" -> <<"wout", cwd, k[3]>> [] op = "convert" -> <<"json", k[1], k[3]>> [] op = "standalone" -> <<"h5", k[1], k[3]>>
Twin(k) == <<k[1], CASE k[2] = "classic" -> "jsonclassic" [] k[2] = "jsonclassic" -> "classic" [] OTHER -> k[2], k[3]>>      \* the other key of the same file name
Problem(k) == IF k \in DOMAIN inp THEN inp[k] ELSE IF Twin(k) \in DOMAIN inp THEN inp[Twin(k)] ELSE "missing"
Faults == {"none", "args", "full", "interrupt"}
Succeeds(op, k, cwd, fault) ==
   /\ fault = "none" /\ Readable(Problem(k)) /\ Target(op, k, cwd) \notin blocked
   /\ CASE op = "run" -> Named(k) /\ Solvable(Problem(k)) [] op = "convert" -> Problem(k) # "refused" [] op = "standalone" -> Solvable(Problem(k))
Solves(op, k, fault) == /\ op # "convert" /\ fault # "args" /\ Readable(Problem(k)) /\ (op = "run" => (Named(k) \/ Order = "solvefirst"))
Command(op, k, cwd, flags, fault) ==
   LET ok == Succeeds(op, k, cwd, fault)
       t == Target(op, k, cwd) IN
   /\ res' = IF ok THEN Put(res, t, Problem(k)) ELSE IF Status = "partial" /\ Solves(op, k, fault) THEN Put(res, t, "broken") ELSE res
   \* a JSON result is an input from then on
   /\ inp' = IF ok /\ op = "convert" THEN Put(inp, Key(k[1], "json", t[3]), Problem(k)) ELSE inp
   /\ last' = [op |-> op, file |-> k, dir |-> cwd, status |-> IF ok \/ Status = "always0" THEN 0 ELSE 1, solved |-> Solves(op, k, fault), named |-> Named(k), wrote |-> ok, p |-> Problem(k)]
   /\ Log([op |-> op, file |-> Rec(k), cwd |-> cwd, flags |-> flags, fault |-> fault, ok |-> ok, solves |-> Solves(op, k, fault), p |-> Problem(k),
           out |-> [kind |-> t[1], dir |-> t[2], name |-> t[3]]])
   /\ UNCHANGED blocked
Alien(kind, d, n) == /\ <<kind, d, n>> \notin DOMAIN res /\ <<kind, d, n>> \notin blocked /\ res' = Put(res, <<kind, d, n>>, "alien") /\ last' = [op |-> "none"]
                     /\ Log([op |-> "alien", kind |-> kind, dir |-> d, name |-> n]) /\ UNCHANGED <<inp, blocked>>
Block(d, n) == /\ <<"wout", d, n>> \notin DOMAIN res /\ blocked' = blocked \cup {<<"wout", d, n>>} /\ last' = [op |-> "none"]
               /\ Log([op |-> "block", kind |-> "wout", dir |-> d, name |-> n]) /\ UNCHANGED <<inp, res>>

Files(op) == {<<d, f, n>> : d \in Dirs, f \in IF op = "convert" THEN {"classic", "jsonclassic"} ELSE IF op = "standalone" THEN {"json"} ELSE Forms, n \in Names}
There(op) == Files(op) \cap DOMAIN inp
DoWrite == \E d \in Pick(Dirs) : \E f \in Pick(Forms) : \E n \in Pick(Names) : \E p \in Pick(Problems) :
             Write(d, IF Emitting /\ f = "classic" /\ Key(d, "jsonclassic", n) \in DOMAIN inp THEN "jsonclassic" ELSE IF Emitting /\ f = "jsonclassic" /\ Key(d, "classic", n) \in DOMAIN inp THEN "classic" ELSE f, n, p)
Flags == [quiet : BOOLEAN, legacy : BOOLEAN, thr : 0..3, how : {"relative", "absolute", "dotted"}]
Calm == {[quiet |-> TRUE, legacy |-> FALSE, thr |-> 1, how |-> "relative"]}
DoCommand == \E op \in Pick({"run", "convert", "standalone"}) : \E z \in Pick(1..4) :
             \E k \in Pick(IF Emitting /\ z > 1 /\ There(op) # {} THEN There(op) ELSE Files(op)) :
             \E c \in Pick(Dirs) : \E g \in Pick(IF Emitting THEN Flags ELSE Calm) : \E f \in Pick(IF Emitting THEN 1..9 ELSE 1..2) :
                Command(op, k, c, g, IF op = "standalone" THEN "none" ELSE CASE f = 1 -> "args" [] f = 2 -> "full" [] f = 3 -> "interrupt" [] OTHER -> "none")
DoAlien == \E q \in Pick({"wout", "h5"}) : \E d \in Pick(Dirs) : \E n \in Pick(Names) : Alien(q, d, n)
DoBlock == \E d \in Pick(Dirs) : \E n \in Pick(Names) : Block(d, n)
Room == Len(ops) < MaxOps
Next == DoWrite \/ (\E op \in {"run", "convert", "standalone"} : \E k \in Files(op) : \E c \in Dirs : \E f \in Faults : Command(op, k, c, [quiet |-> TRUE, legacy |-> FALSE, thr |-> 1, how |-> "relative"], f)) \/ DoAlien \/ DoBlock
Spec == Init /\ [][Room /\ Next]_vars
GNext == \E q \in Pick(1..12) : IF DOMAIN inp = {} \/ q <= 3 THEN DoWrite
   ELSE IF q = 4 THEN (IF \E d \in Dirs, n \in Names : <<"wout", d, n>> \notin (DOMAIN res \cup blocked) THEN
          \E x \in Pick({y \in Dirs \X Names : <<"wout", y[1], y[2]>> \notin (DOMAIN res \cup blocked)}) : \E b \in Pick(1..4) : IF b = 1 THEN Block(x[1], x[2]) ELSE Alien("wout", x[1], x[2]) ELSE DoWrite)
   ELSE DoCommand
GSpec == Init /\ [][Room /\ GNext]_vars

\* ---- the laws
Honest == last.op # "none" => ((last.status = 0) <=> last.wrote)
\* a result file is only ever replaced by a command on the input it is named after
Own == [][ \A t \in DOMAIN res' : (t \notin DOMAIN res \/ res'[t] # res[t]) =>
              \/ last'.op = "none" \/ (last'.wrote /\ t = Owner(last'.op, last'.file, last'.dir) /\ res'[t] = last'.p) ]_vars
Kept == [][ DOMAIN res \subseteq DOMAIN res' ]_vars
Untouched == [][ \A k \in DOMAIN inp : last'.op \in {"run", "standalone"} => inp'[k] = inp[k] ]_vars
NothingInVain == (last.op = "run" /\ last.solved) => last.named
Emit == (Emitting /\ Len(ops) = MaxOps) => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
