------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* One problem, many descriptions.                                          *)
(*                                                                         *)
(* A description is a boundary (and an axis guess), the number of field     *)
(* periods, whether symmetry is assumed, the units of length and field, the *)
(* direction of the flux, and the form its profiles are written in.  The    *)
(* actions describe the same problem anew:                                  *)
(*                                                                         *)
(*   Longer, Stronger   another unit of length or field                     *)
(*   Reverse            flux and current the other way round                *)
(*   Mirror, Rearward       seen in a mirror (t -> -t, Z -> -Z;  z -> -z), the   *)
(*                      rotational transform and the current changing sign  *)
(*   Shift              another origin of the toroidal angle                *)
(*   Unfold             fewer field periods, with the modes counted anew    *)
(*   Raise              an axisymmetric problem with toroidal modes, or     *)
(*                      another number of field periods                     *)
(*   Forget             without assuming the symmetry it has                *)
(*   Write              the same profiles in another form                   *)
(*                                                                         *)
(* Whatever the sequence, the description is the base problem seen through  *)
(* (a t, b z + d) with modes n k, and so is every field on its surfaces;    *)
(* each output quantity follows from its dimension and its sign under       *)
(* reflection and reversal.                                                 *)
(***************************************************************************)
EXTENDS Surface, Json
CONSTANTS MaxSteps, Emitting
VARIABLES base, ax0, x, ax, p, steps
vars == <<base, ax0, x, ax, p, steps>>
C4(i) == CASE i % 4 = 0 -> 1 [] i % 4 = 2 -> -1 [] OTHER -> 0
S4(i) == CASE i % 4 = 1 -> 1 [] i % 4 = 3 -> -1 [] OTHER -> 0
Sg(kk) == IF kk \in {"zs", "zc"} THEN -1 ELSE 1                  \* Z changes sign in the mirror t -> -t
Partner(kk) == CASE kk = "rc" -> "rs" [] kk = "rs" -> "rc" [] kk = "zc" -> "zs" [] kk = "zs" -> "zc"
IsC(kk) == kk \in {"rc", "zc"}
(* f'(t, z) = sg f(a t, b z + d), modes times k, on nt' toroidal modes.  Where a term cos(m t - n z) goes: *)
To(a, b, k, m, n) == LET n1 == (IF m = 0 THEN b ELSE a * b) * n * k IN IF m = 0 /\ n1 < 0 THEN -n1 ELSE n1     \* its toroidal mode number
Odds(a, b, m, n) == IF m = 0 THEN (IF b * n < 0 THEN -1 ELSE 1) ELSE a                                          \* the sign sin(..) gets
\* the term (C, S) of mode (m, n) becomes  C' = C cos nd - S sin nd,  S' = odd (C sin nd + S cos nd)
Mat(a, b, d, m, n) == LET c == C4(n * d + 64)  s == S4(n * d + 64)  o == Odds(a, b, m, n) IN <<c, -s, o * s, o * c>>
Sources(y, a, b, k, m, n) == {j \in (-y.nt)..y.nt : (m > 0 \/ j >= 0) /\ To(a, b, k, m, j) = n}
RECURSIVE Add(_, _)
Add(F, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN F[j] + Add(F, S \ {j})
Act(y, sg, a, b, d, k, nt, la) ==
  LET F(kk, m, n) ==
        Add([j \in (-y.nt)..y.nt |-> LET M == Mat(a, b, d, m, j)  own == A(y, kk, m, j)  other == A(y, Partner(kk), m, j)
                                         v == IF IsC(kk) THEN M[1] * own + M[2] * other ELSE M[3] * other + M[4] * own
                                     IN (IF sg = -1 THEN Sg(kk) ELSE 1) * v], Sources(y, a, b, k, m, n))
  IN Build(y.mp, nt, la, F)
(* points, the toroidal angle in units of the base problem *)
RECURSIVE Over(_, _, _, _, _, _, _)
Over(y, kc, ks, k, t, z, i) == IF i = 0 THEN 0 ELSE
  LET m == (i - 1) \div (2 * y.nt + 1)  n == ((i - 1) % (2 * y.nt + 1)) - y.nt
      ph == m * t - (n \div k) * z + 4 * 256 IN
  IF A(y, kc, m, n) = 0 /\ A(y, ks, m, n) = 0 THEN Over(y, kc, ks, k, t, z, i - 1)
  ELSE A(y, kc, m, n) * C4(ph) + A(y, ks, m, n) * S4(ph) + Over(y, kc, ks, k, t, z, i - 1)
Point(y, k, t, z) == LET w == y.mp * (2 * y.nt + 1) IN <<Over(y, "rc", "rs", k, t, z, w), Over(y, "zc", "zs", k, t, z, w)>>
(***************************************************************************)
Forms == 0..5
Plain == [len |-> 0, fld |-> 0, rev |-> 1, a |-> 1, b |-> 1, d |-> 0, k |-> 1, up |-> 0, nfp |-> 6, la |-> FALSE, pp |-> 0, pi |-> 0, pc |-> 0]
Start(s, g) == base = s /\ ax0 = g /\ x = s /\ ax = g /\ p = [Plain EXCEPT !.la = s.la] /\ steps = 0
Sure == UNCHANGED <<base, ax0>> /\ steps < MaxSteps /\ steps' = steps + 1
Same == UNCHANGED <<x, ax>>
See(a, b, d) == x' = Act(x, a, a, b, d, 1, x.nt, x.la) /\ ax' = Act(ax, a, a, b, d, 1, ax.nt, ax.la)
Longer(j) == Sure /\ (p.len + j) \in -2..3 /\ p' = [p EXCEPT !.len = @ + j] /\ Same       \* (one step: a factor of 16)
Stronger(j) == Sure /\ (p.fld + j) \in -2..3 /\ p' = [p EXCEPT !.fld = @ + j] /\ Same
Reverse == Sure /\ p' = [p EXCEPT !.rev = -@] /\ Same
Mirror == Sure /\ p' = [p EXCEPT !.a = -@] /\ See(-1, 1, 0)
Rearward == Sure /\ p' = [p EXCEPT !.b = -@] /\ See(1, -1, 0)
\* (angles in quarter turns of the base problem's period: only before the modes were counted anew)
Shift4(e) == Sure /\ p.k = 1 /\ (p.la \/ e % 2 = 0) /\ p' = [p EXCEPT !.d = (@ + p.b * e) % 4] /\ See(1, 1, e)
Unfold(j) == /\ Sure /\ p.nfp % j = 0 /\ p.k * j <= 3 /\ x.nt > 0 /\ p.up = 0 /\ p' = [p EXCEPT !.k = @ * j, !.nfp = @ \div j]
             /\ x' = Act(x, 1, 1, 1, 0, j, x.nt * j, x.la) /\ ax' = Act(ax, 1, 1, 1, 0, j, ax.nt * j, ax.la)
Raise(j, f) == /\ Sure /\ base.nt = 0 /\ p' = [p EXCEPT !.up = j, !.nfp = f] /\ j >= x.nt
               /\ x' = Act(x, 1, 1, 1, 0, 1, j, x.la) /\ ax' = Act(ax, 1, 1, 1, 0, 1, j, ax.la)
Forget == Sure /\ ~p.la /\ p' = [p EXCEPT !.la = TRUE] /\ x' = [x EXCEPT !.la = TRUE] /\ ax' = [ax EXCEPT !.la = TRUE]
Write(w, i) == Sure /\ p' = [p EXCEPT ![w] = i] /\ Same
Next == \/ (\E j \in {-1, 1} : Longer(j) \/ Stronger(j)) \/ Reverse \/ Mirror \/ Rearward \/ Forget
        \/ \E e \in 1..3 : Shift4(e)
        \/ \E j \in 2..3 : Unfold(j)
        \/ \E j \in 0..2, f \in {1, 5} : Raise(j, f)
(* laws *)
Act1(y) == Act(y, p.a, p.a, p.b, p.d, p.k, IF base.nt = 0 THEN p.up ELSE y.nt * p.k, p.la)
Closed == x = Act1(base) /\ ax = Act1(ax0)                                              \* the way taken does not matter
Quarter == 0..3
SameSurface == \A t, z \in Quarter :
   LET q == Point(x, p.k, t, z)  o == Point(base, 1, (p.a * t) % 4, (p.b * z + p.d) % 4) IN q = <<o[1], p.a * o[2]>>
SymmetryKept == ~p.la => \A m \in 0..(x.mp - 1), n \in (-x.nt)..x.nt : A(x, "rs", m, n) = 0 /\ A(x, "zc", m, n) = 0
Canonical == base.la => (A(base, "rs", 1, 0) = A(base, "zc", 1, 0) => A(x, "rs", 1, 0) = A(x, "zc", 1, 0))
SmallSurfaces == UNION {{Build(2, nt, la, LAMBDA kk, m, n : IF kk = "rc" /\ m = 0 /\ n = 0 THEN 9 ELSE IF kk \in {"rc", "zs"} /\ m = 1 /\ n = 0 THEN 3
        ELSE IF m = 0 /\ (n < 0 \/ (n = 0 /\ kk \in {"rs", "zs"})) THEN 0 ELSE IF <<kk, m, n>> \in P THEN 1 ELSE 0) :
        P \in {{}} \cup {{q} : q \in {<<kk, m, n>> : kk \in (IF la THEN Ks ELSE {"rc", "zs"}), m \in 0..1, n \in (-nt)..nt}} \cup {{<<"rc", 1, nt>>, <<"zs", 1, -nt>>, <<"zs", 0, nt>>}}} : la \in BOOLEAN, nt \in 0..1}
SmallAxis(nt, la) == Build(1, nt, la, LAMBDA kk, m, n : IF kk = "rc" /\ n = 0 THEN 9 ELSE IF kk \in {"rc", "zs"} /\ n = 1 THEN 1 ELSE 0)
Init == \E s \in SmallSurfaces : Start(s, SmallAxis(s.nt, s.la))
Spec == Init /\ [][Next]_vars
(***************************************************************************)
(* output quantities: powers of the unit of length and of field, sign under *)
(* Mirror, under Rearward, under Reverse                                        *)
(***************************************************************************)
Q(l, f, m, bk, r) == [len |-> l, fld |-> f, mirror |-> m, back |-> bk, rev |-> r]
Scalars == [
  Aminor_p |-> Q(1, 0, 1, 1, 1), Rmajor_p |-> Q(1, 0, 1, 1, 1), aspect |-> Q(0, 0, 1, 1, 1), volume |-> Q(3, 0, 1, 1, 1), rmax_surf |-> Q(1, 0, 1, 1, 1), rmin_surf |-> Q(1, 0, 1, 1, 1), zmax_surf |-> Q(1, 0, 1, 1, 1),
  b0 |-> Q(0, 1, 1, 1, -1), volavgB |-> Q(0, 1, 1, 1, 1), wb |-> Q(3, 2, 1, 1, 1), wp |-> Q(3, 2, 1, 1, 1), rbtor |-> Q(1, 1, 1, 1, -1), rbtor0 |-> Q(1, 1, 1, 1, -1), ctor |-> Q(1, 1, -1, -1, -1),
  betapol |-> Q(0, 0, 1, 1, 1), betator |-> Q(0, 0, 1, 1, 1), betatotal |-> Q(0, 0, 1, 1, 1), betaxis |-> Q(0, 0, 1, 1, 1), IonLarmor |-> Q(0, -1, 1, 1, 1),
  fsqr |-> Q(0, 0, 1, 1, 1), fsqz |-> Q(0, 0, 1, 1, 1), fsql |-> Q(0, 0, 1, 1, 1), itfsq |-> Q(0, 0, 1, 1, 1), ns |-> Q(0, 0, 1, 1, 1), ftolv |-> Q(0, 0, 1, 1, 1)]
Profiles == [
  iotaf |-> Q(0, 0, -1, -1, 1), iotas |-> Q(0, 0, -1, -1, 1), q_factor |-> Q(0, 0, -1, -1, 1), phi |-> Q(2, 1, 1, 1, -1), phipf |-> Q(2, 1, 1, 1, -1), phips |-> Q(2, 1, 1, 1, -1), chi |-> Q(2, 1, -1, -1, -1), chipf |-> Q(2, 1, -1, -1, -1),
  pres |-> Q(0, 2, 1, 1, 1), presf |-> Q(0, 2, 1, 1, 1), mass |-> Q(0, 2, 1, 1, 1), vp |-> Q(3, 0, 1, 1, 1), specw |-> Q(0, 0, 1, 1, 1), over_r |-> Q(-1, 0, 1, 1, 1), beta_vol |-> Q(0, 0, 1, 1, 1),
  buco |-> Q(1, 1, -1, -1, -1), bvco |-> Q(1, 1, 1, 1, -1), jcuru |-> Q(1, 1, 1, 1, -1), jcurv |-> Q(1, 1, -1, -1, -1), jdotb |-> Q(-1, 2, -1, -1, 1), bdotb |-> Q(0, 2, 1, 1, 1), bdotgradv |-> Q(-1, 1, 1, 1, -1), equif |-> Q(0, 0, 1, 1, 1),
  DMerc |-> Q(-4, -2, 1, 1, 1), DShear |-> Q(-4, -2, 1, 1, 1), DWell |-> Q(-4, -2, 1, 1, 1), DCurr |-> Q(-4, -2, 1, 1, 1), DGeod |-> Q(-4, -2, 1, 1, 1)]
\* fields on the surfaces, as cosine and sine series
Fields == [
  r |-> Q(1, 0, 1, 1, 1), z |-> Q(1, 0, -1, 1, 1), l |-> Q(0, 0, -1, 1, 1), g |-> Q(3, 0, 1, 1, 1), b |-> Q(0, 1, 1, 1, 1),
  bsupu |-> Q(-1, 1, -1, -1, -1), bsupv |-> Q(-1, 1, 1, 1, -1), bsubu |-> Q(1, 1, -1, -1, -1), bsubv |-> Q(1, 1, 1, 1, -1), bsubs |-> Q(1, 1, 1, -1, -1),
  curru |-> Q(1, 1, 1, 1, -1), currv |-> Q(1, 1, -1, -1, -1)]
\* the other tables (of a field on a grid: the largest value on each surface)
Tables == [
  jxbout |-> [itheta |-> Q(1, 1, 1, 1, 1), izeta |-> Q(1, 1, 1, 1, 1), bdotk |-> Q(2, 2, 1, 1, 1), amaxfor |-> Q(0, 0, 1, 1, 1), aminfor |-> Q(0, 0, 1, 1, 1), avforce |-> Q(-3, 2, 1, 1, 1), pprim |-> Q(-3, 2, 1, 1, 1), jdotb |-> Q(-1, 2, -1, -1, 1), bdotb |-> Q(0, 2, 1, 1, 1), bdotgradv |-> Q(-1, 1, 1, 1, -1), jpar2 |-> Q(-2, 2, 1, 1, 1), jperp2 |-> Q(-2, 2, 1, 1, 1), phin |-> Q(0, 0, 1, 1, 1), jsupu3 |-> Q(-2, 1, 1, 1, 1), jsupv3 |-> Q(-2, 1, 1, 1, 1), jsups3 |-> Q(-2, 1, 1, 1, 1), bsupu3 |-> Q(-1, 1, 1, 1, 1), bsupv3 |-> Q(-1, 1, 1, 1, 1), jcrossb |-> Q(-3, 2, 1, 1, 1), jxb_gradp |-> Q(-3, 2, 1, 1, 1), jdotb_sqrtg |-> Q(-1, 2, 1, 1, 1), sqrtg3 |-> Q(0, 0, 1, 1, 1), bsubu3 |-> Q(1, 1, 1, 1, 1), bsubv3 |-> Q(1, 1, 1, 1, 1), bsubs3 |-> Q(1, 1, 1, 1, 1)],
  mercier |-> [s |-> Q(0, 0, 1, 1, 1), toroidal_flux |-> Q(2, 1, 1, 1, -1), iota |-> Q(0, 0, -1, -1, 1), shear |-> Q(-3, 0, -1, -1, 1), d_volume_d_s |-> Q(1, -1, 1, 1, -1), well |-> Q(-1, -2, 1, 1, 1), toroidal_current |-> Q(1, 1, -1, -1, -1), d_toroidal_current_d_s |-> Q(-2, 1, -1, -1, -1), pressure |-> Q(0, 2, 1, 1, 1), d_pressure_d_s |-> Q(-3, 2, 1, 1, 1), DMerc |-> Q(-4, -2, 1, 1, 1), Dshear |-> Q(-4, -2, 1, 1, 1), Dwell |-> Q(-4, -2, 1, 1, 1), Dcurr |-> Q(-4, -2, 1, 1, 1), Dgeod |-> Q(-4, -2, 1, 1, 1)],
  threed1_volumetrics |-> [int_p |-> Q(3, 2, 1, 1, 1), avg_p |-> Q(0, 2, 1, 1, 1), int_bpol |-> Q(3, 2, 1, 1, 1), avg_bpol |-> Q(0, 2, 1, 1, 1), int_btor |-> Q(3, 2, 1, 1, 1), avg_btor |-> Q(0, 2, 1, 1, 1), int_modb |-> Q(3, 2, 1, 1, 1), avg_modb |-> Q(0, 2, 1, 1, 1), int_ekin |-> Q(3, 2, 1, 1, 1), avg_ekin |-> Q(0, 2, 1, 1, 1)],
  threed1_first_table |-> [s |-> Q(0, 0, 1, 1, 1), radial_force |-> Q(0, 0, 1, 1, 1), toroidal_flux |-> Q(2, 1, 1, 1, -1), iota |-> Q(0, 0, -1, -1, 1), avg_jsupu |-> Q(-2, 1, 1, 1, -1), avg_jsupv |-> Q(-2, 1, -1, -1, -1), d_volume_d_phi |-> Q(1, -1, 1, 1, -1), d_pressure_d_phi |-> Q(-2, 1, 1, 1, -1), spectral_width |-> Q(0, 0, 1, 1, 1), pressure |-> Q(0, 2, 1, 1, 1), buco_full |-> Q(1, 1, -1, -1, -1), bvco_full |-> Q(1, 1, 1, 1, -1), j_dot_b |-> Q(-1, 2, -1, -1, 1), b_dot_b |-> Q(0, 2, 1, 1, 1)],
  threed1_geometric_magnetic |-> [toroidal_flux |-> Q(2, 1, 1, 1, -1), circum_p |-> Q(1, 0, 1, 1, 1), surf_area_p |-> Q(2, 0, 1, 1, 1), cross_area_p |-> Q(2, 0, 1, 1, 1), volume_p |-> Q(3, 0, 1, 1, 1), Rmajor_p |-> Q(1, 0, 1, 1, 1), Aminor_p |-> Q(1, 0, 1, 1, 1), aspect |-> Q(0, 0, 1, 1, 1), kappa_p |-> Q(0, 0, 1, 1, 1), rcen |-> Q(1, 0, 1, 1, 1), aminr1 |-> Q(1, 0, 1, 1, 1), pavg |-> Q(0, 2, 1, 1, 1), factor |-> Q(0, 2, 1, 1, 1), b0 |-> Q(0, 1, 1, 1, -1), rmax_surf |-> Q(1, 0, 1, 1, 1), rmin_surf |-> Q(1, 0, 1, 1, 1), zmax_surf |-> Q(1, 0, 1, 1, 1), bmin |-> Q(0, 1, 1, 1, 1), bmax |-> Q(0, 1, 1, 1, 1), waist |-> Q(1, 0, 1, 1, 1), height |-> Q(1, 0, 1, 1, 1), betapol |-> Q(0, 0, 1, 1, 1), betatot |-> Q(0, 0, 1, 1, 1), betator |-> Q(0, 0, 1, 1, 1), VolAvgB |-> Q(0, 1, 1, 1, 1), IonLarmor |-> Q(0, -1, 1, 1, 1), jpar_perp |-> Q(0, 0, 1, 1, 1), jparPS_perp |-> Q(0, 0, 1, 1, 1), toroidal_current |-> Q(1, 1, -1, -1, -1), rbtor |-> Q(1, 1, 1, 1, -1), rbtor0 |-> Q(1, 1, 1, 1, -1), psi |-> Q(2, 1, -1, -1, -1), ygeo |-> Q(1, 0, 1, 1, 1), yellip |-> Q(0, 0, 1, 1, 1), ytrian |-> Q(0, 0, 1, 1, 1), yshift |-> Q(0, 0, 1, 1, 1), loc_jpar_perp |-> Q(0, 0, 1, 1, 1), loc_jparPS_perp |-> Q(0, 0, 1, 1, 1)],
  threed1_betas |-> [betatot |-> Q(0, 0, 1, 1, 1), betapol |-> Q(0, 0, 1, 1, 1), betator |-> Q(0, 0, 1, 1, 1), rbtor |-> Q(1, 1, 1, 1, -1), betaxis |-> Q(0, 0, 1, 1, 1), betstr |-> Q(0, 0, 1, 1, 1)],
  threed1_shafranov_integrals |-> [scaling_ratio |-> Q(0, 0, 1, 1, 1), r_lao |-> Q(1, 0, 1, 1, 1), f_lao |-> Q(0, 0, 1, 1, 1), f_geo |-> Q(0, 0, 1, 1, 1), smaleli |-> Q(0, 0, 1, 1, 1), betai |-> Q(0, 0, 1, 1, 1), musubi |-> Q(0, 0, 1, 1, 1), lambda_ |-> Q(0, 0, 1, 1, 1), s11 |-> Q(0, 0, 1, 1, 1), s12 |-> Q(0, 0, 1, 1, 1), s13 |-> Q(0, 0, 1, 1, 1), s2 |-> Q(0, 0, 1, 1, 1), s3 |-> Q(0, 0, 1, 1, 1), delta2 |-> Q(0, 0, 1, 1, 1), delta3 |-> Q(0, 0, 1, 1, 1)]]
\* read off at the origin of the toroidal angle, or half a period from it, or on the upper side
Judged(q) == /\ (q \in {"b0", "aminr1", "rcen", "f_geo", "smaleli", "betai", "musubi", "lambda_", "s11", "s12", "s13", "s2", "s3", "delta2", "delta3"} => p.d = 0)
             /\ (q \in {"waist", "height", "ygeo", "yellip", "ytrian", "yshift", "bmin", "bmax"} => (p.d = 0 /\ p.k = 1 /\ p.up = 0))
             /\ (q \in {"amaxfor", "aminfor"} => (p.len = 0 /\ p.fld = 0))            \* (guarded against division by zero by an absolute number)
             /\ (q \in {"zmax_surf", "height", "bmin", "bmax", "yellip", "ytrian", "yshift"} => (p.a = 1 \/ ~p.la))
Times(q, r) == Q(q.len + r.len, q.fld + r.fld, q.mirror * r.mirror, q.back * r.back, q.rev * r.rev)
ASSUME /\ Scalars.wb = Times(Times(Fields.b, Fields.b), Scalars.volume) /\ Scalars.wp = Times(Profiles.pres, Scalars.volume)
       /\ Times(Fields.b, Fields.b) = Times(Fields.bsupu, Fields.bsubu) /\ Times(Fields.b, Fields.b) = Times(Fields.bsupv, Fields.bsubv)
       /\ Times(Fields.bsupv, Fields.g) = Times(Profiles.phips, Q(0, 0, 1, 1, 1)) /\ Profiles.chi = Times(Profiles.phi, Profiles.iotaf)
       /\ Fields.currv = Times(Fields.bsubu, Q(0, 0, 1, 1, 1)) /\ Fields.curru = Times(Fields.bsubv, Q(0, 0, 1, 1, 1))
       /\ Profiles.jdotb = Times(Times(Fields.currv, Fields.bsubv), [Fields.g EXCEPT !.len = -3]) /\ Times(Profiles.DMerc, Times(Profiles.phi, Profiles.phi)) = Q(0, 0, 1, 1, 1)
\* the external field of a free-boundary problem is part of its description: cylindrical components on the grid of an mgrid
\* table; they change like the covariant components of the field on the surfaces they meet
Outside == [b_r |-> Q(0, 1, 1, -1, -1), b_p |-> Q(0, 1, 1, 1, -1), b_z |-> Q(0, 1, -1, -1, -1)]
ASSUME Times(Outside.b_r, Fields.r) = Fields.bsubs /\ Times(Outside.b_z, Fields.z) = Fields.bsubs /\ Times(Outside.b_p, Fields.r) = Fields.bsubv
\* (the vacuum problem is discretised on the planes of one period, its singularity regularised by a kernel with that period:
\* descriptions with another number of periods or of toroidal modes agree only up to discretisation)
FreeToo == p.k = 1 /\ p.up = 0 /\ p.nfp = Plain.nfp
Factor(q) == [len |-> q.len * p.len, fld |-> q.fld * p.fld, sign |-> (IF p.a = -1 THEN q.mirror ELSE 1) * (IF p.b = -1 THEN q.back ELSE 1) * (IF p.rev = -1 THEN q.rev ELSE 1)]
(***************************************************************************)
(* cases for the implementation                                             *)
(***************************************************************************)
Pick(S) == RandomElement(IF steps >= 0 THEN S ELSE S)
GInit == base = <<>> /\ ax0 = <<>> /\ x = <<>> /\ ax = <<>> /\ p = Plain /\ steps = 0
AxisOf(nt, la, e) == Build(1, nt, la, LAMBDA kk, m, n : IF kk = "rc" /\ n = 0 THEN 162000 ELSE IF n = 1 /\ (kk \in {"rc", "zs"} \/ la) THEN 400 * e[kk] ELSE 0)
GFirst == /\ steps = 0 /\ steps' = 1
  /\ \E mp \in {Pick(3..5)}, nt \in {Pick({0, 0, 1, 1, 1, 2})}, la \in {Pick(BOOLEAN)}, e1 \in {Pick({-12, -5, 5, 12})}, e2 \in {Pick(-6..6)} :
     \E rip \in {Ripple(mp, nt)}, e \in {[kk \in Ks |-> Pick(-2..2)]} :
     LET s == Fold(Base(mp, nt, la, <<e1, e2, e2>>, rip)) IN base' = s /\ x' = s /\ ax0' = AxisOf(nt, la, e) /\ ax' = ax0' /\ p' = [Plain EXCEPT !.la = la]
GStep == \E w \in {Pick(1..16)}, i \in {Pick(1..5)}, e \in {Pick(1..3)}, j \in {Pick(2..3)}, f \in {Pick({1, 2, 5})}, u \in {Pick(0..2)}, sg \in {Pick({-2, -1, 1, 2, 3})} :
  CASE w \in {1, 15} /\ (p.len + sg) \in -2..3 -> Longer(sg) [] w \in {2, 16} /\ (p.fld + sg) \in -2..3 -> Stronger(sg) [] w = 3 -> Reverse [] w = 4 -> Mirror [] w = 5 -> Rearward
    [] w \in 6..7 /\ p.k = 1 /\ (p.la \/ e % 2 = 0) -> Shift4(e)
    [] w \in 6..8 /\ x.nt > 0 /\ p.up = 0 /\ p.nfp % j = 0 /\ p.k * j <= 3 -> Unfold(j)
    [] w \in 6..8 /\ base.nt = 0 /\ u >= x.nt -> Raise(u, f)
    [] w \in 8..10 /\ ~p.la -> Forget
    [] w = 11 -> Write("pp", i) [] w = 12 -> Write("pi", i) [] OTHER -> Write("pc", i)
GNext == GFirst \/ (steps > 0 /\ steps < MaxSteps /\ GStep)
GSpec == GInit /\ [][GNext]_vars
Moves == [i \in 1..(base.mp * (2 * base.nt + 1)) |->
   LET m == (i - 1) \div (2 * base.nt + 1)  n == ((i - 1) % (2 * base.nt + 1)) - base.nt IN [m |-> m, n |-> n, to |-> To(p.a, p.b, p.k, m, n), mat |-> Mat(p.a, p.b, p.d, m, n)]]
Emit == IF Emitting /\ steps = MaxSteps THEN PrintT("@@" \o ToJson([base |-> base, ax0 |-> ax0, x |-> x, ax |-> ax, p |-> p,
          free |-> FreeToo, outside |-> [q \in DOMAIN Outside |-> Factor(Outside[q])], scalars |-> [q \in {q \in DOMAIN Scalars : Judged(q)} |-> Factor(Scalars[q])], profiles |-> [q \in DOMAIN Profiles |-> Factor(Profiles[q])], fields |-> [q \in DOMAIN Fields |-> Factor(Fields[q])], tables |-> [g \in DOMAIN Tables |-> [q \in {q \in DOMAIN Tables[g] : Judged(q)} |-> Factor(Tables[g][q])]]])) ELSE TRUE
GLaws == steps > 0 => (Closed /\ SameSurface /\ SymmetryKept /\ Canonical)
=============================================================================
