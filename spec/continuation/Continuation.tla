---------------------------- MODULE Continuation ----------------------------
(* A run with a Fourier-resolution continuation schedule: refuse an inconsistent schedule before any   *)
(* solve; otherwise one solve per step, in order, each seeded with the previous step's solution (the   *)
(* first one with the caller's restart solution, if any); a failing solve ends the run.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, NsVals, MpolVals, NtorVals, Emitting
VARIABLES req, step, calls, outcome
vars == <<req, step, calls, outcome>>

Seqs(S, n) == [1..n -> S]
Upto(S, lo, hi) == UNION { Seqs(S, n) : n \in lo..hi }
\* scalar resolutions are represented by kind "s" and a one-element sequence
Sched(S, n) == { [kind |-> "s", v |-> <<x>>] : x \in S }
               \cup { [kind |-> "l", v |-> q] : q \in Upto(S, 2, MaxSteps + 1) }
Mono(q) == \A i \in 2..Len(q) : q[i] >= q[i-1]
Reqs == { r \in [ ns : Upto(NsVals, 1, MaxSteps), mp : Sched(MpolVals, MaxSteps), nt : Sched(NtorVals, MaxSteps),
                  lf : {-1, 0, 1}, li : {-1, 0, 1}, rf : BOOLEAN, fail : 0..MaxSteps, field : {FALSE} ] :
            /\ (r.mp.kind = "l" \/ r.nt.kind = "l")
            /\ r.fail <= Len(r.ns) /\ Len(r.ns) + r.lf >= 0 /\ Len(r.ns) + r.li >= 0 }
At(s, i) == IF s.kind = "s" THEN s.v[1] ELSE s.v[i]
N(r) == Len(r.ns)
LenOK(s, n) == s.kind = "s" \/ Len(s.v) = n
\* lf / li: how many entries the tolerance / budget lists have more (or fewer) than the grid list
Consistent(r) == LenOK(r.mp, N(r)) /\ LenOK(r.nt, N(r)) /\ r.lf >= 0 /\ r.li >= 0

InitR(r) == req = r /\ step = 0 /\ calls = <<>> /\ outcome = "running"
Refuse == outcome = "running" /\ step = 0 /\ ~Consistent(req) /\ outcome' = "refused" /\ UNCHANGED <<req, step, calls>>
Seed(i) == IF i > 1 THEN "prev" ELSE IF req.rf THEN "given" ELSE "none"
Solve ==
  /\ outcome = "running" /\ Consistent(req) /\ step < N(req)
  /\ LET i == step + 1 IN
     /\ calls' = Append(calls, [ns |-> req.ns[i], mp |-> At(req.mp, i), nt |-> At(req.nt, i), f |-> i, seed |-> Seed(i)])
     /\ step' = i
     /\ outcome' = IF req.fail = i THEN "failed" ELSE IF i = N(req) THEN "done" ELSE "running"
  /\ UNCHANGED req
Next == Refuse \/ Solve
Spec == (\E r \in Reqs : InitR(r)) /\ [][Next]_vars

\* properties
OnePerStep == outcome = "done" => Len(calls) = N(req)
InOrder == \A i \in 1..Len(calls) : calls[i].f = i /\ calls[i].ns = req.ns[i]
Chained == \A i \in 2..Len(calls) : calls[i].seed = "prev"
EndsAtRequest == outcome = "done" => /\ calls[N(req)].mp = req.mp.v[Len(req.mp.v)] /\ calls[N(req)].nt = req.nt.v[Len(req.nt.v)]
NothingBeforeRefusal == outcome = "refused" => calls = <<>>
FailureEnds == outcome = "failed" => Len(calls) = req.fail
Emit == (Emitting /\ outcome \notin {"running", "choose"}) => PrintT("@@" \o ToJson([req |-> req, calls |-> calls, outcome |-> outcome]))

\* generator: one random request per behaviour (chosen in the first step, TLC computes initial states only once)
NoReq == [ns |-> <<5>>, mp |-> [kind |-> "s", v |-> <<3>>], nt |-> [kind |-> "s", v |-> <<0>>], lf |-> 0, li |-> 0, rf |-> FALSE, fail |-> 0, field |-> FALSE]
GInit == req = NoReq /\ step = 0 /\ calls = <<>> /\ outcome = "choose"
Choose == outcome = "choose" /\
         \E n \in {RandomElement(1..MaxSteps)} :
         \E a \in {RandomElement(Seqs(NsVals, n))} :
         \E bad \in {RandomElement(1..8)} :
         \E lm \in {IF bad = 1 THEN RandomElement({2, n + 1}) ELSE IF n = 1 THEN 2 ELSE n} :
         \E ln \in {IF bad = 2 THEN RandomElement({2, n + 1}) ELSE IF n = 1 THEN 2 ELSE n} :
         \E m \in {RandomElement(Seqs(MpolVals, lm))} : \E t \in {RandomElement(Seqs(NtorVals, ln))} :
         \E which \in {RandomElement({"m", "t", "b"})} :
         \E lf \in {IF bad = 3 THEN -1 ELSE RandomElement(0..1)} : \E li \in {IF bad = 4 THEN -1 ELSE RandomElement(0..1)} :
         \E rf \in {RandomElement(BOOLEAN)} : \E fl \in {IF bad \in {5, 6} THEN RandomElement(0..n) ELSE 0} :
            /\ req' = [ns |-> a, mp |-> IF which = "t" THEN [kind |-> "s", v |-> <<m[Len(m)]>>] ELSE [kind |-> "l", v |-> m],
                   nt |-> IF which = "m" THEN [kind |-> "s", v |-> <<t[Len(t)]>>] ELSE [kind |-> "l", v |-> t],
                   lf |-> lf, li |-> li, rf |-> rf, fail |-> fl, field |-> RandomElement({TRUE, FALSE, FALSE})]
            /\ step' = 0 /\ calls' = <<>> /\ outcome' = "running"
GSpec == GInit /\ [][Choose \/ Next]_vars
=============================================================================
