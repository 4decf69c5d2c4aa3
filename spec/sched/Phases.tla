------------------------------- MODULE Phases -------------------------------
(* The team of workers that advances one equilibrium, reduced to the exchange of data it needs:
   each worker owns a value (its flux surfaces); in every iteration
     - a shared sum over all workers is reset by one of them, accumulated by all of them, and turned
       into a shared result and a shared decision by one of them (the force residuals, the time step
       control),
     - all of them branch on the shared decision, and one of them then clears it,
     - a value is passed along the workers in order (the tridiagonal solve),
     - every worker leaves its value for its neighbours and combines it with theirs (hand-over of
       the overlapping surfaces).
   The constructs are those of the code: barriers, "single" (first one there does it), "critical" and
   an ordered hand-over.  Between two constructs a worker's accesses are separate steps.

   Mode "free" explores every interleaving.  Mode "serial" explores only the schedules the harness
   can force on the real program: in the k-th interval between barriers the runnable worker that
   comes first in the k-th priority list runs (a worker that has won a "single" may be held back).  Drop = k leaves out the k-th barrier.  The check
   compares the two modes: what a dropped barrier can break under some interleaving, it must break
   under some serial schedule as well - that is what makes running the real code under serial
   schedules only a meaningful search.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS T,          \* number of workers
          Iterations, Drops, Modes, MaxLists,
          Gen         \* generate schedules instead (simulation)

Workers == 1..T
Perms == {p \in [1..T -> Workers] : \A a, b \in 1..T : a # b => p[a] # p[b]}
(* a priority list, and whether a worker that got hold of a "single" is held back before it does it *)
Lists == [p : Perms, hold : BOOLEAN]
Mod == 7

Body == << [op |-> "single", a |-> "reset"], [op |-> "bar", k |-> 1],
           [op |-> "add", a |-> ""], [op |-> "bar", k |-> 2],
           [op |-> "single", a |-> "result"], [op |-> "bar", k |-> 3],
           [op |-> "branch", a |-> ""], [op |-> "bar", k |-> 4],
           [op |-> "single", a |-> "clear"], [op |-> "leave", a |-> ""], [op |-> "bar", k |-> 5],
           [op |-> "chain", a |-> ""], [op |-> "take", a |-> ""], [op |-> "bar", k |-> 6],
           [op |-> "single", a |-> "chainreset"], [op |-> "put", a |-> ""], [op |-> "bar", k |-> 7] >>
Len0 == Len(Body)
Prog(d) == LET one == SelectSeq(Body, LAMBDA o : ~(o.op = "bar" /\ o.k = d)) IN [i \in 1..(Len(one) * Iterations) |-> one[((i - 1) % Len(one)) + 1]]

VARIABLES drop, mode, lists, pc, at, nbar, singles, started, acc, res, flag, chain, sum, own, left, dec, nxt, claim
vars == <<drop, mode, lists, pc, at, nbar, singles, started, acc, res, flag, chain, sum, own, left, dec, nxt, claim>>

(* one worker alone defines what must come out *)
RECURSIVE Ref(_, _)
SumOf(f) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(T)
PrefixOf(f, w) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(w)
Step(f) == LET r == (SumOf(f) * 3 + 1) % Mod
               d == r % 2
               nb(w) == (IF w > 1 THEN f[w - 1] ELSE 0) + (IF w < T THEN f[w + 1] ELSE 0)
           IN [w \in Workers |-> (f[w] + 2 * r + d + PrefixOf(f, w) + nb(w)) % Mod]
Ref(f, n) == IF n = 0 THEN f ELSE Ref(Step(f), n - 1)
Start == [w \in Workers |-> (w * w + 1) % Mod]

Init == /\ drop \in Drops /\ mode \in Modes
        /\ lists \in (IF mode = "free" THEN {<<>>} ELSE UNION {[1..n -> Lists] : n \in 1..MaxLists})
        /\ pc = [w \in Workers |-> 1] /\ at = {} /\ nbar = 0 /\ singles = [w \in Workers |-> 0] /\ started = 0
        /\ acc = 0 /\ res = 0 /\ flag = 0 /\ chain = 1 /\ sum = 0 /\ own = Start /\ left = [w \in Workers |-> 0] /\ dec = [w \in Workers |-> 0] /\ nxt = Start /\ claim = [w \in Workers |-> FALSE]

P == Prog(drop)
Ended(w) == pc[w] > Len(P)
OpAt(w) == P[pc[w]]
Enabled0(w) == ~Ended(w) /\ w \notin at /\ (OpAt(w).op = "chain" => chain = w)
(* a dropped barrier can make a worker wait for the chain for ever; that is a deadlock of the broken program *)
Rank(l, w) == (CHOOSE i \in 1..T : l.p[i] = w) + (IF l.hold /\ claim[w] THEN T ELSE 0)
First(S) == LET l == lists[(nbar % Len(lists)) + 1] IN CHOOSE w \in S : \A v \in S : Rank(l, w) <= Rank(l, v)
MayRun(w) == Enabled0(w) /\ (mode = "serial" => w = First({v \in Workers : Enabled0(v)}))

Advance(w) == pc' = [pc EXCEPT ![w] = @ + 1]
Same(v) == UNCHANGED v
Do(w) ==
  LET o == OpAt(w) IN
  CASE o.op = "bar" ->
         IF at \cup {w} = Workers
         THEN /\ at' = {} /\ nbar' = nbar + 1 /\ pc' = [v \in Workers |-> pc[v] + 1] /\ Same(<<singles, started, acc, res, flag, chain, sum, own, left, dec, nxt, claim>>)
         ELSE /\ at' = at \cup {w} /\ Same(<<nbar, pc, singles, started, acc, res, flag, chain, sum, own, left, dec, nxt, claim>>)
    [] o.op = "single" ->
         IF claim[w]
         THEN /\ Advance(w) /\ claim' = [claim EXCEPT ![w] = FALSE]
              /\ acc' = (IF o.a = "reset" THEN 0 ELSE acc)
              /\ res' = (IF o.a = "result" THEN (acc * 3 + 1) % Mod ELSE res)
              /\ flag' = (IF o.a = "result" THEN ((acc * 3 + 1) % Mod) % 2 ELSE IF o.a = "clear" THEN 0 ELSE flag)
              /\ chain' = (IF o.a = "chainreset" THEN 1 ELSE chain)
              /\ sum' = (IF o.a = "chainreset" THEN 0 ELSE sum)
              /\ Same(<<at, nbar, singles, started, own, left, dec, nxt>>)
         ELSE /\ singles' = [singles EXCEPT ![w] = @ + 1]
              /\ IF singles[w] = started
                 THEN started' = started + 1 /\ claim' = [claim EXCEPT ![w] = TRUE] /\ pc' = pc
                 ELSE Advance(w) /\ Same(<<started, claim>>)
              /\ Same(<<at, nbar, acc, res, flag, chain, sum, own, left, dec, nxt>>)
    [] o.op = "add" -> Advance(w) /\ acc' = acc + own[w] /\ Same(<<at, nbar, singles, started, res, flag, chain, sum, own, left, dec, nxt, claim>>)
    [] o.op = "branch" -> Advance(w) /\ dec' = [dec EXCEPT ![w] = flag] /\ Same(<<at, nbar, singles, started, acc, res, flag, chain, sum, own, left, nxt, claim>>)
    [] o.op = "leave" -> Advance(w) /\ left' = [left EXCEPT ![w] = own[w]] /\ Same(<<at, nbar, singles, started, acc, res, flag, chain, sum, own, dec, nxt, claim>>)
    [] o.op = "chain" -> Advance(w) /\ sum' = sum + own[w] /\ chain' = chain + 1 /\ nxt' = [nxt EXCEPT ![w] = (own[w] + 2 * res + dec[w] + sum + own[w]) % Mod] /\ Same(<<at, nbar, singles, started, acc, res, flag, own, left, dec, claim>>)
    [] o.op = "take" -> Advance(w) /\ nxt' = [nxt EXCEPT ![w] = (@ + (IF w > 1 THEN left[w - 1] ELSE 0) + (IF w < T THEN left[w + 1] ELSE 0)) % Mod] /\ Same(<<at, nbar, singles, started, acc, res, flag, chain, sum, own, left, dec, claim>>)
    [] o.op = "put" -> Advance(w) /\ own' = [own EXCEPT ![w] = nxt[w]] /\ Same(<<at, nbar, singles, started, acc, res, flag, chain, sum, left, dec, nxt, claim>>)

Finished == \A w \in Workers : Ended(w)
Stuck == ~Finished /\ \A w \in Workers : ~Enabled0(w)
Next == /\ ~Finished /\ ~Stuck
        /\ \E w \in Workers : MayRun(w) /\ Do(w)
        /\ UNCHANGED <<drop, mode, lists>>
Spec == Init /\ [][Next]_vars

Wrong == Stuck \/ (Finished /\ own # Ref(Start, Iterations))
(* with every barrier in place no interleaving matters *)
ScheduleFree == drop = 0 => ~Wrong
(* reports which dropped barriers can be seen in which mode (an action constraint would do as well) *)
Report == Wrong => PrintT("@@" \o ToJson([drop |-> drop, mode |-> mode]))

(* ---------------------------------------------------------- schedules for the real program *)
GenInit == /\ drop = 0 /\ mode = "serial" /\ lists = <<>> /\ pc = [w \in Workers |-> 1] /\ at = {} /\ nbar = 0 /\ singles = [w \in Workers |-> 0] /\ started = 0
           /\ acc = 0 /\ res = 0 /\ flag = 0 /\ chain = 1 /\ sum = 0 /\ own = Start /\ left = [w \in Workers |-> 0] /\ dec = [w \in Workers |-> 0] /\ nxt = Start /\ claim = [w \in Workers |-> FALSE]
GenNext == /\ Len(lists) < MaxLists /\ \E p \in Lists : lists' = Append(lists, p)
           /\ UNCHANGED <<drop, mode, pc, at, nbar, singles, started, acc, res, flag, chain, sum, own, left, dec, nxt, claim>>
GenSpec == GenInit /\ [][GenNext]_vars
Emit == Len(lists) > 0 => PrintT("@@" \o ToJson([perms |-> lists]))
=============================================================================
