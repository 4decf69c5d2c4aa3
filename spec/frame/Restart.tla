------------------------------ MODULE Restart ------------------------------
(* Starting a solve from a stored solution.

   A stored solution comes with the input it was computed for (symmetry class la, poloidal and toroidal resolution mp
   and nt, grid schedule sched) and with tables of coefficients (whole, on a coarser grid than the schedule says,
   or without their asymmetric half).  A request for a new solve names it as the place to start from.  The request is
   answered before any work: admitted only if everything matches the first grid of the new schedule, refused else.
   The admitted solve starts at the stored geometry, its edge at the new boundary if the boundary is fixed.  Stages
   after the first continue from the stage before; the stored solution has no part in them.                       *)
EXTENDS Surface, Json, IOUtils
CONSTANTS TraceFile, Emitting
VARIABLES stored, req, phase, stage, geom, work, k
vars == <<stored, req, phase, stage, geom, work, k>>
Schedules == {<<5>>, <<3, 5>>, <<5, 9>>, <<9>>}
Entries == {"run", "cpp", "model"}
Stores == {s \in [la : BOOLEAN, mp : {3, 4}, nt : {0, 1}, sched : Schedules, tables : {"whole", "coarser", "half"}] : (s.tables = "half" => s.la) /\ (s.tables = "coarser" => Len(s.sched) > 1)}
Requests == [la : BOOLEAN, mp : {3, 4}, nt : {0, 1}, sched : Schedules, free : BOOLEAN]
Last(s) == s[Len(s)]
(* the grid the solve starts on: the step-wise object is told its grid, a solve takes the first of its schedule *)
Matches(s, r) == s.la = r.la /\ s.mp = r.mp /\ s.nt = r.nt /\ Last(s.sched) = r.sched[1] /\ s.tables = "whole"
Why(s, r) == IF s.la # r.la THEN "symmetry" ELSE IF s.mp # r.mp THEN "poloidal resolution" ELSE IF s.nt # r.nt THEN "toroidal resolution" ELSE IF Last(s.sched) # r.sched[1] THEN "grid" ELSE IF s.tables # "whole" THEN "tables" ELSE ""
Init == stored \in Stores /\ req \in Requests /\ phase = "asked" /\ stage = 0 /\ geom = [inner |-> "none", edge |-> "none"] /\ work = 0 /\ k = 0
Answer == /\ phase = "asked"
          /\ IF Matches(stored, req) THEN /\ phase' = "running" /\ stage' = 1
                                          /\ geom' = [inner |-> "stored", edge |-> IF req.free THEN "stored" ELSE "boundary"]
             ELSE phase' = "refused" /\ UNCHANGED <<stage, geom>>
          /\ UNCHANGED <<stored, req, work, k>>
Step == /\ phase = "running" /\ work < 4 /\ work' = work + 1
        /\ geom' = [inner |-> "moved", edge |-> IF req.free THEN "moved" ELSE geom.edge] /\ UNCHANGED <<stored, req, phase, stage, k>>
NextStage == /\ phase = "running" /\ work > 0 /\ stage < Len(req.sched) /\ stage' = stage + 1
             /\ geom' = [geom EXCEPT !.inner = "continued"] /\ UNCHANGED <<stored, req, phase, work, k>>
Finish == /\ phase = "running" /\ work > 0 /\ stage = Len(req.sched) /\ phase' = "done" /\ UNCHANGED <<stored, req, stage, geom, work, k>>
Next == Answer \/ Step \/ NextStage \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RefusedEarly == phase = "refused" => work = 0 /\ geom.inner = "none" /\ Why(stored, req) # ""
OnlyMatching == phase \in {"running", "done"} => Why(stored, req) = ""
StartsThere == (phase = "running" /\ work = 0) => geom.inner = "stored" /\ (geom.edge = "boundary") = ~req.free
FixedEdge == (phase \in {"running", "done"} /\ ~req.free) => geom.edge = "boundary"
OnlyTheFirstStage == geom.inner = "stored" => stage = 1
Answered == <>(phase \in {"refused", "done"})

(* ------------------------------------------------------------------ requests for the implementation (all of them) *)
EInit == stored \in Stores /\ req \in {r \in Requests : ~r.free} /\ phase = "asked" /\ stage = 0 /\ geom = <<>> /\ work = 0 /\ k = 0
ESpec == EInit /\ [][FALSE]_vars
Emit == Emitting => PrintT("@@" \o ToJson([stored |-> stored, req |-> req, why |-> Why(stored, req)]))
(* boundaries and stored geometries: a torus that shrinks towards the axis, with ripples of its own on every surface *)
Pick(S) == RandomElement(IF work >= 0 THEN S ELSE S)
Root(num, den) == CHOOSE r \in 0..1000 : r * r * den <= 1000000 * num /\ (r + 1) * (r + 1) * den > 1000000 * num      \* 1000 sqrt(num / den)
Layer(mp, nt, la, j, ns, rip, lam) ==
  LET rad == 40 * Root(j - 1, ns - 1) IN
  Fold(Build(mp, nt, la, LAMBDA kk, m, n :
    IF m = 0 /\ n = 0 THEN (IF kk = "rc" THEN (IF lam THEN 0 ELSE 160000) ELSE 0)
    ELSE IF ~la /\ kk \in {"rs", "zc"} THEN 0
    ELSE IF m = 1 /\ n = 0 /\ kk \in {"rc", "zs"} /\ ~lam THEN rad
    ELSE IF j = 1 /\ m > 0 THEN 0
    ELSE IF lam /\ kk \in {"rc", "rs"} THEN 0
    ELSE rip[<<kk, m, n>>] * (IF m = 0 THEN 200 ELSE rad \div 160)))
GInit == stored = <<>> /\ req = <<>> /\ phase = "new" /\ stage = 0 /\ geom = <<>> /\ work = 0 /\ k = 0
GNext == /\ phase = "new" /\ phase' = "given"
         /\ \E mp \in {Pick(2..4)}, nt \in {Pick(0..2)}, la \in {Pick(BOOLEAN)}, fl \in {Pick(BOOLEAN)}, ns \in {Pick({3, 4, 5, 6})}, e1 \in {Pick(1..9)}, e2 \in {Pick(-6..6)} :
            LET base == Base(mp, nt, la, <<e1, e2, IF fl THEN -e2 ELSE e2>>, Ripple(mp, nt)) IN
            /\ req' = [b |-> (IF fl THEN Flip(base) ELSE base), ns |-> ns]
            /\ stored' = [j \in 1..ns |-> [g |-> Layer(mp, nt, la, j, ns, Ripple(mp, nt), FALSE), l |-> Layer(mp, nt, la, j, ns, Ripple(mp, nt), TRUE)]]
         /\ UNCHANGED <<stage, geom, work, k>>
GSpec == GInit /\ [][GNext]_vars
GEmit == (Emitting /\ phase = "given") => PrintT("@@" \o ToJson([b |-> req.b, ns |-> req.ns, stored |-> stored]))

(* ------------------------------------------------------------------ what the implementation did *)
(* [e |-> "request", stored, req, entry, answer ("refused"/"accepted"), work]
   [e |-> "start", b, free, j, ns, g, l, x, flip (sign of lambda)]  one surface j (1..ns) of the geometry a solve started at
   [e |-> "stage", from]          what a later stage started at: "previous", "stored" or "other"
   [e |-> "again", free, cold, hot, same, twice]  a converged problem restarted unchanged: iterations cold and hot;
   with a free boundary the balance at the edge is part of the residuals during the first 50 iterations                *)
LNames(x) == IF x.la /\ x.nt > 0 THEN <<"zsc", "zcs", "zcc", "zss">> ELSE IF x.la THEN <<"zsc", "zcc">> ELSE IF x.nt > 0 THEN <<"zsc", "zcs">> ELSE <<"zsc">>
(* the flat order of the observed vector: R, Z as in Surface!Vector, then lambda in the order of the basis functions *)
Lambda(x) == LET w == (x.nt + 1) * x.mp IN [i \in 1..(Len(LNames(x)) * w) |-> 2 * Raw(x, LNames(x)[(i - 1) \div w + 1], (i - 1) % x.mp, ((i - 1) % w) \div x.mp)]
Judge(ev) ==
  CASE ev.e = "request" ->
         LET why == Why(ev.stored, ev.req) IN
         IF why # "" /\ ev.answer # "refused" THEN "a restart from a solution that does not match (" \o why \o ") was accepted"
         ELSE IF why # "" /\ ev.work > 0 THEN "a restart was refused only after work had been done"
         ELSE IF why = "" /\ ev.answer = "refused" THEN "a restart from a matching solution was refused" ELSE ""
    [] ev.e = "start" ->
         LET edge == ev.j = ev.ns /\ ~ev.free
             want == IF edge THEN Vector(Normal(ev.b)) ELSE Vector(ev.g)
             mp == ev.b.mp
             geo(i) == ev.j > 1 \/ (i - 1) % mp = 0                      \* on the axis only m = 0 means anything
             lam == Lambda(ev.l)
             off == Len(want)
         IN IF Len(ev.x) # off + Len(lam) THEN "the state does not have the size of the stored one"
            ELSE IF \E i \in 1..off : geo(i) /\ ev.x[i] # want[i] THEN (IF edge THEN "the solve did not start with the new boundary" ELSE "the solve did not start at the stored geometry")
            ELSE IF ev.j > 1 /\ \E i \in 1..Len(lam) : ev.x[off + i] # ev.flip * lam[i] THEN "the solve did not start at the stored lambda" ELSE ""
    [] ev.e = "stage" -> IF ev.from = "previous" THEN "" ELSE "a later stage did not continue from the stage before (" \o ev.from \o ")"
    [] ev.e = "again" -> IF ev.hot * 10 > ev.cold /\ ev.hot > (IF ev.free THEN 60 ELSE 3) THEN "restarting a converged problem unchanged took " \o ToString(ev.hot) \o " iterations (from scratch: " \o ToString(ev.cold) \o ")"
                         ELSE IF ~ev.same THEN "restarting a converged problem unchanged ended at another solution"
                         ELSE IF ~ev.twice THEN "restarting twice from the same stored solution gave different results" ELSE ""
Trace == ndJsonDeserialize(TraceFile)
TInit == k = 1 /\ stored = <<>> /\ req = <<>> /\ phase = "" /\ stage = 0 /\ geom = <<>> /\ work = 0
TNext == /\ k <= Len(Trace) /\ k' = k + 1
         /\ LET d == Judge(Trace[k]) IN IF d = "" THEN TRUE ELSE PrintT("@@REJECT" \o ToJson([record |-> k, why |-> d]))
         /\ IF k < Len(Trace) THEN TRUE ELSE PrintT("@@DONE" \o ToJson(k))
         /\ UNCHANGED <<stored, req, phase, stage, geom, work>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
