------------------------------ MODULE History ------------------------------
(* A process that runs many solves: inputs are made, edited in place and solved, several solves may be under way at   *)
(* the same time, some fail, are refused or interrupted, outputs are scribbled over, restarted from, dropped, external *)
(* field files are rewritten.  The result of a run is a function of what its arguments held when it was called and of *)
(* nothing else: not of the history of the process, not of what runs beside it, not of later edits; and a run changes *)
(* none of its arguments.                                                                                              *)
(*                                                                                                                     *)
(* "Memory" and "Share" describe how an implementation may fall short of it: a memo of earlier work looked up by only  *)
(* part of the arguments, a work area shared by runs under way, an output that refers to the caller's input.  With     *)
(* the sound choices the laws hold, with each of the others TLC finds a history that breaks them.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases, Once, Fields, NI, NO, NF, MaxOps, MaxDepth, Memory, Share, Emitting
VARIABLES inp,     \* inputs: [base, ed: field -> version, from: which field file or table it uses] or None
          ext,     \* contents (versions) of the external fields: 1..NF -> version
          out,     \* outputs: [key, val: what it holds, given: the recorded input, ref: input it came from, dirty] or None
          busy,    \* runs under way: slot -> [key, i, fate] or None
          memo, work, ops
vars == <<inp, ext, out, busy, memo, work, ops>>
None == [base |-> 0]
NoRun == [key |-> <<>>, i |-> 0, fate |-> "none"]
NoOut == [key |-> <<>>, val |-> <<>>, given |-> None, ref |-> 0, dirty |-> FALSE]
Live(o) == out[o].key # <<>>
Running(o) == busy[o].fate # "none"
Log(x) == ops' = IF Emitting THEN Append(ops, x) ELSE Append(ops, 0)
Init == /\ inp = [i \in 1..NI |-> None] /\ ext = [f \in 1..NF |-> 0] /\ out = [o \in 1..NO |-> NoOut] /\ busy = [o \in 1..NO |-> NoRun]
        /\ memo = <<>> /\ work = <<>> /\ ops = <<>>

Pick(S) == IF Emitting THEN {RandomElement(IF Len(ops) >= 0 THEN S ELSE S)} ELSE S
Made == {i \in 1..NI : inp[i] # None}
\* which fields can be written through an array the caller still holds
InPlace == {"bound", "prof", "grid", "budget"}
Make(i, b) == /\ inp' = [inp EXCEPT ![i] = [base |-> b, ed |-> [f \in Fields |-> 0]]]
              /\ Log([op |-> "make", i |-> i, base |-> b]) /\ UNCHANGED <<ext, out, busy, memo, work>>
Edit(i, f, v, how) == /\ inp' = [inp EXCEPT ![i].ed[f] = v]
                      /\ Log([op |-> "edit", i |-> i, f |-> f, v |-> v, how |-> how]) /\ UNCHANGED <<ext, out, busy, memo, work>>
\* the external field (file or table) used by an input whose base asks for one
Rewrite(f, v) == /\ ext' = [ext EXCEPT ![f] = v] /\ Log([op |-> "rewrite", f |-> f, v |-> v]) /\ UNCHANGED <<inp, out, busy, memo, work>>

Content(i) == [in |-> inp[i], ext |-> ext]
Depth(o) == Len(out[o].key)
\* a run is called: its arguments are what they are now.  A key is the sequence of contents from the first start to this run
\* Once: problems solved on several grids, whose outputs are no starting point for themselves
Starts(i) == {o \in 1..NO : inp[i].base \notin Once /\ Live(o) /\ ~out[o].dirty /\ Depth(o) < MaxDepth /\ out[o].given.base = inp[i].base /\ out[o].given.ed["grid"] = inp[i].ed["grid"]}
KeyOf(i, s) == (IF s = 0 THEN <<>> ELSE out[s].key) \o <<Content(i)>>
Fates == {"ends", "interrupted"}
Begin(i, o, s, thr, fate) ==
   /\ ~Running(o) /\ (s = 0 \/ s \in Starts(i))
   /\ busy' = [busy EXCEPT ![o] = [key |-> KeyOf(i, s), i |-> i, fate |-> fate]]
   /\ out' = [out EXCEPT ![o] = NoOut] /\ work' = KeyOf(i, s)
   /\ Log([op |-> "begin", i |-> i, o |-> o, s |-> s, thr |-> thr, fate |-> fate, key |-> KeyOf(i, s)]) /\ UNCHANGED <<inp, ext, memo>>
\* what the run delivers
Proj(k) == IF Memory = "coarse" THEN k[Len(k)].in.base ELSE k
Found(k) == {j \in 1..Len(memo) : Proj(memo[j]) = Proj(k)}
Value(k) == LET w == IF Share = "work" THEN work ELSE k
            IN IF Memory # "none" /\ Found(w) # {} THEN memo[CHOOSE j \in Found(w) : TRUE] ELSE w
Fails(k) == k[Len(k)].in.ed["budget"] = 1          \* too few iterations: ends in an error, no output
Refused(k) == k[Len(k)].in.ed["budget"] = 2        \* not a valid input at all
End(o) ==
   /\ Running(o)
   /\ LET b == busy[o]
          k == b.key
          dead == Fails(k) \/ Refused(k) \/ b.fate = "interrupted" IN
      /\ out' = [out EXCEPT ![o] = IF dead THEN NoOut ELSE [key |-> k, val |-> Value(k), given |-> k[Len(k)].in, ref |-> b.i, dirty |-> FALSE]]
      /\ memo' = IF Memory = "none" THEN memo ELSE Append(memo, Value(k))
      /\ Log([op |-> "end", o |-> o, how |-> IF Refused(k) THEN "refused" ELSE IF b.fate = "interrupted" THEN "interrupted" ELSE IF Fails(k) THEN "failed" ELSE "output", key |-> k])
   /\ busy' = [busy EXCEPT ![o] = NoRun] /\ UNCHANGED <<inp, ext, work>>
Scribble(o) == /\ Live(o) /\ out' = [out EXCEPT ![o].dirty = TRUE] /\ Log([op |-> "scribble", o |-> o]) /\ UNCHANGED <<inp, ext, busy, memo, work>>
Drop(o) == /\ Live(o) /\ out' = [out EXCEPT ![o] = NoOut] /\ Log([op |-> "drop", o |-> o]) /\ UNCHANGED <<inp, ext, busy, memo, work>>
\* using a step-wise model, writing and reading files, converting the input: nothing that is alive changes
Aside(i, k) == /\ Log([op |-> "aside", i |-> i, kind |-> k]) /\ UNCHANGED <<inp, ext, out, busy, memo, work>>
Asides == {"model", "tojson", "tocpp", "table"}

Room == Len(ops) < MaxOps
DoMake == \E i \in Pick(1..NI) : \E b \in Pick(Bases) : Make(i, b)
DoEdit == \E i \in Pick(Made) : \E f \in Pick(Fields) : \E v \in Pick(IF Emitting THEN 0..8 ELSE 0..2) :
             \E h \in Pick(IF f \in InPlace THEN {"assign", "inplace"} ELSE {"assign"}) : Edit(i, f, IF v <= 2 THEN v ELSE IF f = "budget" THEN 0 ELSE v % 3, h)
DoRewrite == \E f \in Pick(1..NF) : \E v \in Pick(0..2) : Rewrite(f, v)
Free == {o \in 1..NO : ~Running(o)}
DoBegin == \E i \in Pick(Made) : \E o \in Pick(Free) : \E s \in Pick({0} \cup Starts(i)) : \E t \in Pick(IF Emitting THEN 1..5 ELSE {1}) :
              \E q \in Pick(IF Emitting THEN 1..12 ELSE 1..2) : Begin(i, o, s, IF t < 4 THEN 1 ELSE t - 2, IF q = 1 THEN "interrupted" ELSE "ends")
DoEnd == \E o \in Pick({x \in 1..NO : Running(x)}) : End(o)
DoScribble == \E o \in Pick({x \in 1..NO : Live(x)}) : Scribble(o)
DoDrop == \E o \in Pick({x \in 1..NO : Live(x)}) : Drop(o)
DoAside == \E i \in Pick(Made) : \E k \in Pick(Asides) : Aside(i, k)
Next == DoMake \/ DoEdit \/ DoRewrite \/ DoBegin \/ DoEnd \/ DoScribble \/ DoDrop \/ DoAside
Spec == Init /\ [][Room /\ Next]_vars
\* generator: the kind of operation first; all runs are ended before the history ends
nRun == Cardinality({o \in 1..NO : Running(o)})
Wind == MaxOps - Len(ops) <= nRun
GNext == \E k \in {Pick(1..20)} : \E q \in k :
   IF Wind THEN DoEnd
   ELSE IF Made = {} THEN DoMake
   ELSE IF q <= 1 THEN DoMake
   ELSE IF q <= 5 THEN DoEdit
   ELSE IF q = 6 THEN DoRewrite
   ELSE IF q <= 12 THEN (IF nRun < 4 /\ Free # {} THEN DoBegin ELSE DoEnd)
   ELSE IF q <= 15 THEN (IF nRun > 0 THEN DoEnd ELSE DoBegin)
   ELSE IF q <= 17 THEN (IF \E x \in 1..NO : Live(x) THEN DoScribble ELSE DoEdit)
   ELSE IF q = 18 THEN (IF \E x \in 1..NO : Live(x) THEN DoDrop ELSE DoEdit)
   ELSE DoAside
GSpec == Init /\ [][Room /\ GNext]_vars

\* generator of crowds: every slot runs again and again while all the others do, the inputs stay as they are
CEdit == \E i \in Pick(Made) : \E f \in Pick(Fields) : \E v \in Pick(0..2) : Edit(i, f, IF f = "budget" THEN (IF v = 0 THEN 0 ELSE 3) ELSE v, "assign")
CBegin == \E i \in Pick(Made) : \E o \in Pick(Free) : Begin(i, o, 0, 1, "ends")
CNext == IF Wind THEN DoEnd ELSE IF Len(ops) < NI THEN \E b \in Pick(Bases) : Make(Len(ops) + 1, b) ELSE IF Len(ops) < 4 * NI THEN CEdit ELSE IF Free # {} THEN CBegin ELSE DoEnd
CSpec == Init /\ [][Room /\ CNext]_vars

\* ---- the laws
Determined == \A o \in 1..NO : Live(o) => out[o].val = out[o].key
\* what an output records as its input, if the implementation hands out the caller's object
RecordedInput(o) == IF Share = "alias" THEN inp[out[o].ref] ELSE out[o].given
Recorded == \A o \in 1..NO : Live(o) => RecordedInput(o) = out[o].key[Len(out[o].key)].in
Agree == \A o, p \in 1..NO : (Live(o) /\ Live(p) /\ out[o].key = out[p].key) => out[o].val = out[p].val
\* a run leaves inputs, external fields and all other outputs alone
LeavesAlone == [][ \A o \in 1..NO : (busy'[o] # busy[o]) => (inp' = inp /\ ext' = ext /\ \A p \in 1..NO \ {o} : out'[p] = out[p]) ]_vars
NoOutputOfFailures == \A o \in 1..NO : Live(o) => ~Fails(out[o].key) /\ ~Refused(out[o].key)
Emit == (Emitting /\ Len(ops) = MaxOps) => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
