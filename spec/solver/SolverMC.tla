------------------------------ MODULE SolverMC ------------------------------
(* Exhaustive model: small constants, every outcome at every evaluation. *)
EXTENDS SolverControl
CONSTANTS Styles, NsSeqs, NiterVal, IntrOn, Langs
NsSeqsA == {<<5>>, <<5, 4, 7>>, <<2, 5, 5>>, <<5, 5>>}
NsSeqsB == {<<5>>}
FtolOf == <<2, 1, 1>>
Cfgs == { [style |-> s, lang |-> g, ns |-> n, ftol |-> FtolOf, niter |-> [q \in 1..3 |-> NiterVal],
           ret |-> r, nstep |-> 2] : s \in Styles, n \in NsSeqs, r \in BOOLEAN, g \in Langs }
O(k, r, z, l, f) == [k |-> k, r |-> r, z |-> z, l |-> l, f |-> f]
Outcomes ==
  { O("ok", r, z, l, f) : r \in {1, 3}, z \in {1}, l \in {1, 3}, f \in {1, 2, 5} }
  \cup { O("ok", NonFinite, 1, 1, 1), O("ok", 1, 1, NonFinite, 2), O("bad", 0, 0, 0, 0), O("vac", 3, 1, 1, 2),
         O("huge", 9, 9, 9, 5), O("errP", 0, 0, 0, 0), O("errI", 0, 0, 0, 0) }
Init == \E c \in Cfgs : InitWith(c)
\* a soft restart landing exactly on the escalation count would skip it (see DESIGN.md); left out here,
\* as is convergence together with a soft restart
Sane(o) == o.k = "vac" => ijac \notin {J1, J2}
Next == Refuse \/ Finish \/ StartStage \/ \E o \in Outcomes, i \in (IF IntrOn THEN BOOLEAN ELSE {FALSE}) : Sane(o) /\ Evaluate(o, i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* identities and histories multiply states without adding behaviour
View == <<cfg, pc, gi, nsold, nsmin, fit, badr, retries, i1, i2, ijac, res0, res1, fsq, cur, dt,
          xid = bid, xid = xev, vz, nrest > 0, nreg, status>>
Terminates == <>(pc = "done")
=============================================================================
