---------------------------- MODULE SolverControl ----------------------------
(* The control of a VMEC++ solve: grid stages, force iterations, convergence test, damping history,  *)
(* time-step control, checkpoints, rollbacks, axis re-guess, escalation / give-up, interrupt polls.  *)
(* One action per force evaluation (the forward model's answer is the environment's choice), one per *)
(* stage change.  The same module is bound to the C++ loop and to its Python port.                   *)
(*                                                                                                   *)
(* Residuals are integers in units of 2^-13, so every comparison of the code is exact on both sides. *)
(* Geometry is symbolic: x, b(ackup), v are described by the operations in `log`; for model checking *)
(* the abstract identities xid / bid are enough.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  GapStore,     \* 10 : iterations since the last restart before a checkpoint is allowed (8.52)
  GapSlow,      \* 12
  IterSlow,     \* 50
  SlowThr,      \* 82 : smallest integer above 1e-2 * 2^13
  Leash852, LeashPar, LeashRob,   \* 100, 10000, 1000
  J1, J2, J3,   \* 25, 50, 75
  TauLen,       \* 10
  NsMin,        \* 3
  FsqInit       \* 8192 : 1.0 in units

VARIABLES
  cfg,          \* [style, lang, ns, ftol, niter, ret, nstep] : constant during a behaviour
  pc,           \* "stage" | "eval" | "done"
  gi,           \* index of the current entry of cfg.ns (0 before the first)
  nsold, nsmin, \* grid solved last (0: none), finest grid so far
  fit, badr,    \* force_iteration, bad_resets of the current loop entry
  retries, lentry, \* number of loop entries of this stage
  i1, i2,       \* iter1, iter2
  ijac,
  res0, res1, fsq,
  cur,          \* [r,z,l,f] residuals of the last completed forward-model evaluation
  dt,           \* <<base, n09, n103>> : time step = base/100 * delt * 0.9^n09 / 1.03^n103
  tau,          \* damping history: +k = entry produced at evaluation k from the residual ratio,
                \*                  -k = 0.15/time step of evaluation k
  xid, bid,     \* identity of the geometry and of the checkpoint
  xev,          \* identity of the geometry the residuals `cur` belong to
  vz,           \* TRUE: velocity is zero
  nid, nev,     \* counters: identities, evaluations
  nrest, nreg,  \* rollbacks, axis re-guesses (per stage)
  status,       \* "normal" | "success" | "badjac" | "jac75" | "unrec" | "cancelled" | "error"
  log           \* history for replay

vars == <<cfg, pc, gi, nsold, nsmin, fit, badr, retries, lentry, i1, i2, ijac, res0, res1, fsq, cur, dt,
          tau, xid, bid, xev, vz, nid, nev, nrest, nreg, status, log>>

Min2(a, b) == IF a < b THEN a ELSE b
Ftol == cfg.ftol[gi]
Niter == cfg.niter[gi]
NonFinite == -7     \* stands for NaN / Inf in a residual
Bad == {"badjac", "jac75", "unrec"}

InitWith(c) ==
  /\ cfg = c /\ pc = "stage" /\ gi = 0 /\ nsold = 0 /\ nsmin = NsMin
  /\ fit = 1 /\ badr = 0 /\ retries = 0 /\ lentry = 0 /\ i1 = 1 /\ i2 = 1 /\ ijac = 0
  /\ res0 = -1 /\ res1 = -1 /\ fsq = FsqInit
  /\ cur = [r |-> FsqInit, z |-> FsqInit, l |-> FsqInit, f |-> FsqInit]
  /\ dt = <<100, 0, 0>> /\ tau = <<>> /\ xid = 0 /\ bid = 0 /\ xev = -1 /\ vz = TRUE
  /\ nid = 0 /\ nev = 0 /\ nrest = 0 /\ nreg = 0 /\ status = "normal" /\ log = <<>>

(* ------------------------------- stages ------------------------------------------------------- *)
\* entries that are too coarse are skipped with their tolerance and budget
NextEntry(from, m) == LET S == {j \in (from+1)..Len(cfg.ns) : cfg.ns[j] >= m} IN
                      IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

Verdict(s) == CASE s = "success"                 -> "converged"
                [] s = "cancelled"               -> "cancelled"
                [] s = "error"                   -> "failed"
                [] s \in {"normal"} \cup Bad     -> IF cfg.ret THEN "unconverged-output" ELSE
                                                    IF s = "normal" THEN "notconverged" ELSE "failed"

\* the built-in solver refuses grid sequences that are too coarse or not monotone before doing any work;
\* the Python driver skips the offending entries instead
RefusedCfg == cfg.lang = "cpp" /\ \/ \E q \in 1..Len(cfg.ns) : cfg.ns[q] < NsMin
                                  \/ \E q \in 2..Len(cfg.ns) : cfg.ns[q] < cfg.ns[q-1]
Refuse ==
  /\ pc = "stage" /\ gi = 0 /\ RefusedCfg
  /\ pc' = "done" /\ status' = "refused"
  /\ log' = Append(log, [t |-> "end", verdict |-> "refused", status |-> "refused"])
  /\ UNCHANGED <<cfg, gi, nsold, nsmin, fit, badr, retries, lentry, i1, i2, ijac, res0, res1, fsq, cur, dt,
                 tau, xid, bid, xev, vz, nid, nev, nrest, nreg>>

Finish == \* no further stage: the run ends with a verdict
  /\ pc = "stage" /\ NextEntry(gi, nsmin) = 0 /\ ~RefusedCfg
  /\ pc' = "done"
  /\ log' = Append(log, [t |-> "end", verdict |-> Verdict(status), status |-> status])
  /\ UNCHANGED <<cfg, gi, nsold, nsmin, fit, badr, retries, lentry, i1, i2, ijac, res0, res1, fsq, cur, dt,
                 tau, xid, bid, xev, vz, nid, nev, nrest, nreg, status>>

StartStage ==
  /\ pc = "stage" /\ NextEntry(gi, nsmin) # 0 /\ ~RefusedCfg
  /\ LET j == NextEntry(gi, nsmin)  n == cfg.ns[j]  same == (nsold = n) IN
     /\ gi' = j /\ nsmin' = n /\ nsold' = n
     /\ pc' = "eval" /\ fit' = 1 /\ badr' = 0 /\ retries' = 1 /\ lentry' = 1
     /\ i1' = 1 /\ i2' = 1 /\ ijac' = 0 /\ res0' = -1 /\ res1' = -1 /\ fsq' = FsqInit
     /\ dt' = <<100, 0, 0>> /\ nrest' = 0 /\ nreg' = 0 /\ status' = "normal"
     \* a new grid gets a new geometry (initial guess or interpolation), a checkpoint of it, zero velocity;
     \* a repeated grid simply continues
     /\ IF same THEN UNCHANGED <<xid, bid, vz, nid>>
                ELSE /\ xid' = nid + 1 /\ bid' = nid + 1 /\ nid' = nid + 1 /\ vz' = TRUE
     /\ log' = Append(log, [t |-> "stage", j |-> j, ns |-> n,
                            how |-> IF same THEN "keep" ELSE IF nsold = 0 THEN "init" ELSE "interp"])
     /\ UNCHANGED <<cfg, cur, tau, xev, nev>>

(* ------------------------------- one force evaluation ------------------------------------------ *)
\* o = [k |-> kind, r, z, l, f]   kinds:
\*   "ok"     forward model evaluated            "vac"  ok + vacuum activation asks for a soft restart
\*   "huge"   ok, but huge forces at iteration 1 "bad"  overlapping surfaces: residuals, forces unchanged
\*   "errP"/"errI"  forward model returned a recoverable / internal error
CanHuge == i2 = 1
Reason(o) == CASE o.k = "bad" -> 2 [] o.k = "huge" -> 4 [] OTHER -> 1

Fin(v) == v # NonFinite

PushTau(k, first) ==  \* damping history after evaluation k
  LET t0 == IF first THEN [q \in 1..TauLen |-> -k] ELSE tau
  IN IF first THEN t0 ELSE [q \in 1..TauLen |-> IF q < TauLen THEN t0[q+1] ELSE k]

\* improvement rule / leash / slow progress of the three styles (g = i2 - i1 after a possible soft restart)
Inv(c) == c.r + c.z + c.l
Improved(c, f, a0, a1, j1) ==
  IF cfg.style = "v852" THEN f <= a0 /\ (i2 - j1) > GapStore ELSE f <= a0 /\ Inv(c) <= a1
Slow(c, j1) == (i2 - j1) > GapSlow /\ i2 > IterSlow /\ (c.r + c.z) >= SlowThr
Exceeds(v, q, a) == (v - 1) \div q >= a     \* v > q * a without leaving 32-bit integers (v >= 1)
Leashed(c, f, a0, a1, j1) ==
  CASE cfg.style = "v852"    -> Exceeds(f, Leash852, a0) /\ i2 > j1
    [] cfg.style = "parvmec" -> (i2 - j1) > GapStore /\ (Exceeds(f, LeashPar, a0) \/ Exceeds(Inv(c), LeashPar, a1))
    [] cfg.style = "robust"  -> (i2 - j1) > GapStore /\ (Exceeds(f, LeashRob, a0) \/ Exceeds(Inv(c), LeashRob, a1))

\* the end of a stage (or of the run) with status s
EndStage(s) ==
  /\ status' = s
  /\ pc' = IF s \in Bad \cup {"cancelled", "error"} THEN "done" ELSE "stage"

Rec(o, ops, poll, extra) == [t |-> "eval", k |-> o.k, r |-> o.r, z |-> o.z, l |-> o.l, f |-> o.f,
     i1 |-> i1, i2 |-> i2, ops |-> ops, poll |-> poll, dt |-> dt, x |-> extra]
EndRec(s) == [t |-> "end", verdict |-> Verdict(s), status |-> s]

\* is a status report (and with it an interrupt poll) due?
Due(conv) == conv \/ i2 = 1 \/ i2 % cfg.nstep = 0

\* intr: the environment raises the interrupt at the poll of this evaluation (if there is one)
Evaluate(o, intr) ==
  /\ pc = "eval"
  /\ (o.k = "huge" => CanHuge)
  /\ LET k    == nev + 1
         soft == o.k = "vac"
         j1   == IF soft THEN i2 ELSE i1                       \* iter1 seen by the rest of this iteration
         ij0  == IF soft THEN ijac + 1 ELSE ijac
         x0   == IF soft THEN bid ELSE xid
         v0   == IF soft THEN TRUE ELSE vz
         c    == IF o.k = "bad" THEN cur ELSE [r |-> o.r, z |-> o.z, l |-> o.l, f |-> o.f]
         rr   == Reason(o)
         finite == Fin(c.r) /\ Fin(c.z) /\ Fin(c.l)
         bad  == (i2 = 1 /\ rr = 2) \/ ~finite
         conv == ~bad /\ c.r <= Ftol /\ c.z <= Ftol /\ c.l <= Ftol
         pre  == IF soft THEN <<"V">> ELSE <<>>
     IN
     /\ nev' = k /\ cur' = c
     /\ xev' = IF o.k = "bad" THEN xev ELSE xid
     /\ UNCHANGED <<cfg, gi, nsold, nsmin>>
     /\ CASE o.k \in {"errP", "errI"} ->
             LET s == IF o.k = "errP" /\ cfg.ret THEN "unrec" ELSE "error" IN
             /\ EndStage(s)
             /\ log' = log \o <<Rec(o, <<>>, 0, <<>>), EndRec(s)>>
             /\ UNCHANGED <<fit, badr, retries, lentry, i1, i2, ijac, res0, res1, fsq, dt, tau, xid, bid, vz, nid, nrest, nreg>>
          [] conv ->
             \* converged: nothing is stepped or rolled back any more
             LET p == IF intr THEN 2 ELSE 1
                 s == IF intr THEN "cancelled" ELSE "success" IN
             /\ EndStage(s)
             /\ log' = log \o <<Rec(o, pre, p, [ij |-> ij0, conv |-> TRUE])>> \o (IF intr THEN <<EndRec(s)>> ELSE <<>>)
             /\ xid' = x0 /\ vz' = v0 /\ ijac' = ij0 /\ i1' = j1
             \* (the code may refresh its checkpoint here; the geometry is the same one)
             /\ UNCHANGED <<fit, badr, retries, lentry, i2, res0, res1, fsq, dt, tau, bid, nid, nrest, nreg>>
          [] ~conv /\ (bad \/ rr = 4) /\ ij0 = 0 /\ cfg.ns[gi] >= 3 ->
             \* bad initial Jacobian / huge initial forces / non-finite residuals: re-guess the axis once
             LET more == retries < Niter
                 step == ~bad    \* huge forces: the step was made before the re-guess
                 s == IF bad THEN "badjac" ELSE "normal" IN
             /\ ijac' = 1 /\ nreg' = nreg + 1
             /\ xid' = nid + 1 /\ bid' = nid + 1 /\ nid' = nid + 1 /\ vz' = TRUE
             /\ fsq' = IF step THEN c.f ELSE fsq
             /\ tau' = IF step THEN PushTau(k, i2 = j1) ELSE tau
             /\ i1' = j1 /\ fit' = i2 /\ badr' = 0 /\ retries' = retries + 1 /\ lentry' = lentry + 1
             /\ IF more THEN pc' = "eval" /\ status' = "normal" ELSE EndStage(s)
             /\ log' = log \o <<Rec(o, pre \o (IF step THEN <<"T">> ELSE <<>>) \o <<"I">>, 0,
                                [ij |-> 1, res0 |-> res0, res1 |-> res1, i1 |-> j1, nr |-> nrest, ng |-> nreg + 1, tau |-> tau'])>>
                           \o (IF more \/ s = "normal" THEN <<>> ELSE <<EndRec(s)>>)
             /\ UNCHANGED <<i2, res0, res1, dt, nrest>>
          [] bad /\ (ij0 # 0 \/ cfg.ns[gi] < 3) ->
             /\ EndStage("badjac")
             /\ log' = log \o <<Rec(o, pre, 0, <<>>), EndRec("badjac")>>
             /\ xid' = x0 /\ vz' = v0 /\ ijac' = ij0 /\ i1' = j1
             /\ UNCHANGED <<fit, badr, retries, lentry, i2, res0, res1, fsq, dt, tau, bid, nid, nrest, nreg>>
          [] OTHER ->
             LET tau2 == PushTau(k, i2 = j1)
                 x1   == nid + 1                                \* the stepped geometry
                 ops1 == pre \o <<"T">>
             IN
             /\ tau' = tau2 /\ fsq' = c.f
             /\ IF ij0 \in {J1, J2} THEN
                  \* escalation: roll back, reset the time step, enter the loop again
                  LET more == retries < Niter IN
                  /\ xid' = bid /\ vz' = TRUE /\ bid' = bid /\ nid' = x1
                  /\ ijac' = ij0 + 1 /\ i1' = i2 /\ nrest' = nrest + 1
                  /\ dt' = <<IF ij0 + 1 < J2 THEN 98 ELSE 96, 0, 0>>
                  /\ fit' = i2 /\ badr' = 0 /\ retries' = retries + 1 /\ lentry' = lentry + 1
                  /\ IF more THEN pc' = "eval" /\ status' = "normal" ELSE EndStage("normal")
                  /\ log' = Append(log, Rec(o, ops1 \o <<"R">>, 0, [ij |-> ij0 + 1, res0 |-> res0, res1 |-> res1, i1 |-> i2, nr |-> nrest + 1, ng |-> nreg, tau |-> tau2]))
                  /\ UNCHANGED <<i2, res0, res1, nreg>>
                ELSE IF ij0 >= J3 THEN
                  /\ EndStage("jac75")
                  /\ xid' = x1 /\ nid' = x1 /\ vz' = FALSE /\ ijac' = ij0 /\ i1' = j1
                  /\ log' = log \o <<Rec(o, ops1, 0, [tau |-> tau2, ij |-> ij0]), EndRec("jac75")>>
                  /\ UNCHANGED <<fit, badr, retries, lentry, i2, res0, res1, dt, bid, nrest, nreg>>
                ELSE
                  LET reset == i2 = j1 \/ res0 = -1
                      a0 == IF reset THEN c.f ELSE Min2(res0, c.f)
                      a1 == IF reset THEN Inv(c) ELSE Min2(res1, Inv(c))
                      impr == Improved(c, c.f, a0, a1, j1)
                      \* an overlapping geometry is never checkpointed: the "store" then rolls back instead
                      storeRb == impr /\ rr = 2
                      save == impr /\ rr # 2
                      rr1 == IF impr THEN (IF rr = 2 THEN 1 ELSE rr)
                             ELSE IF Leashed(c, c.f, a0, a1, j1) THEN (IF cfg.style = "v852" THEN 2 ELSE 3)
                             ELSE IF cfg.style # "parvmec" /\ Slow(c, j1) THEN 3
                             ELSE rr
                      rollback == storeRb \/ rr1 \in {2, 3}
                      hsave == rr1 = 4                          \* huge forces after the re-guess: keep and go on
                      cut == IF storeRb \/ rr1 = 2 THEN <<dt[1], dt[2] + 1, dt[3]>>
                             ELSE IF rr1 = 3 THEN <<dt[1], dt[2], dt[3] + 1>> ELSE dt
                      br  == badr + (IF rr1 # 1 THEN 1 ELSE 0)
                      j1b == IF storeRb \/ rr1 # 1 THEN i2 ELSE j1
                      ij1 == IF storeRb \/ rr1 = 2 THEN ij0 + 1 ELSE ij0
                      b1  == IF save \/ hsave THEN x1 ELSE bid
                      xn  == IF rollback THEN bid ELSE x1
                      ops == ops1 \o (IF storeRb THEN <<"R">> ELSE IF save THEN <<"S">> ELSE <<>>)
                                  \o (IF rr1 \in {2,3} THEN <<"R">> ELSE IF hsave THEN <<"S">> ELSE <<>>)
                      poll == IF rr1 = 1 /\ Due(FALSE) THEN (IF intr THEN 2 ELSE 1) ELSE 0
                      i2n == fit - br + 1
                      last == fit + 1 > Niter
                  IN
                  /\ nid' = x1 /\ xid' = xn /\ bid' = b1 /\ vz' = rollback
                  /\ dt' = cut /\ ijac' = ij1 /\ i1' = j1b
                  /\ res0' = a0 /\ res1' = IF cfg.style = "v852" THEN res1 ELSE a1
                  /\ nrest' = nrest + (IF rollback THEN 1 ELSE 0) /\ nreg' = nreg
                  /\ badr' = br /\ i2' = i2n /\ fit' = fit + 1
                  /\ UNCHANGED <<retries, lentry>>
                  /\ IF poll = 2 THEN EndStage("cancelled")
                     ELSE IF last THEN EndStage("normal") ELSE pc' = "eval" /\ status' = "normal"
                  /\ log' = log \o <<Rec(o, ops, poll, [ij |-> ij1, res0 |-> a0, res1 |-> a1, i1 |-> j1b,
                                     nr |-> nrest', ng |-> nreg, dt |-> cut, tau |-> tau2,
                                     saved |-> (save \/ hsave), restarted |-> rollback])>>
                             \o (IF poll = 2 THEN <<EndRec("cancelled")>> ELSE <<>>)

(* ------------------------------- properties ---------------------------------------------------- *)
TypeOK == /\ pc \in {"stage", "eval", "done"} /\ ijac \in 0..(J3 + 1)
          /\ i1 <= i2 /\ lentry <= 4

\* C01: success only with all residuals finite and within the tolerance of the stage in force ...
Honest == status = "success" => /\ Fin(cur.r) /\ Fin(cur.z) /\ Fin(cur.l)
                                /\ cur.r <= Ftol /\ cur.z <= Ftol /\ cur.l <= Ftol
\* ... and the returned geometry is the evaluated one (a soft restart moves to the checkpoint)
SameGeometry == status = "success" => (xid = xev \/ xid = bid)
\* a verdict "converged" is only possible after the last usable entry
LastStage == (pc = "done" /\ status = "success") => NextEntry(gi, nsmin) = 0
RefusedUntouched == status = "refused" => nev = 0 /\ gi = 0
\* C02 / C04: the iteration counter stays within the budget of the stage; loop entries are bounded
Budget == (pc = "eval") => i2 <= Niter /\ fit <= Niter
Bounded == nreg <= 1 /\ lentry <= 4 /\ ijac <= J3 + 1
\* C03: after a rollback geometry = checkpoint, velocity zero
Rollback == [][(gi' = gi /\ nrest' > nrest) => (xid' = bid /\ bid' = bid /\ vz')]_vars
EscalatedStep == (ijac > J1 /\ pc = "eval" /\ ijac < J2) => dt[1] = 98
NeverPast75 == status = "jac75" => ijac >= J3
\* a rejected (never evaluated as improved) geometry cannot become the checkpoint: action property
CheckpointRule == [][bid' # bid => (bid' = xid' \/ bid' = nid')]_vars
DeltMonotone == [][(gi' = gi /\ dt'[1] = dt[1]) => (dt'[2] >= dt[2] /\ dt'[3] >= dt[3])]_vars
=============================================================================
