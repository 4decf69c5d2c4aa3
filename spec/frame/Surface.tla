------------------------------ MODULE Surface ------------------------------
(* Surfaces given by Fourier coefficients and the frame the solver puts them in.

   A surface is four tables of coefficients: R = SUM rc cos(m t - n z) + rs sin(m t - n z), Z likewise with zc, zs;
   rs and zc only without stellarator symmetry (la).  The solver works in a frame of its own: the poloidal angle is
   shifted so that rs(1,0) = zc(1,0) (la only) and reversed (t -> pi - t) if the boundary runs the other way round.
   Normal(x) is the boundary in that frame.  Coefficients are integers (a fixed unit), and the angles of the shift
   are those with rational sine and cosine (quarter turns and 3-4-5), so all of it is exact.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ks == {"rc", "zs", "rs", "zc"}
Build(mp, nt, la, F(_, _, _)) ==
  LET T(kk) == TLCEval([i \in 1..mp |-> TLCEval([j \in 1..(2 * nt + 1) |-> F(kk, i - 1, j - nt - 1)])]) IN
  [mp |-> mp, nt |-> nt, la |-> la, rc |-> T("rc"), zs |-> T("zs"), rs |-> T("rs"), zc |-> T("zc")]
A(x, kk, m, n) == x[kk][m + 1][n + x.nt + 1]
Odd(m) == m % 2 = 1
Sgn(kk, m) == IF Odd(m) = (kk \in {"rc", "zc"}) THEN -1 ELSE 1
(* t -> pi - t *)
Flip(x) == LET F(kk, m, n) == IF m = 0 THEN A(x, kk, m, n) ELSE Sgn(kk, m) * A(x, kk, m, -n) IN Build(x.mp, x.nt, x.la, F)
RECURSIVE SumN(_, _, _, _)
SumN(x, kk, m, n) == IF n < -x.nt THEN 0 ELSE A(x, kk, m, n) + SumN(x, kk, m, n - 1)
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
NeedsFlip(x) == Sign(SumN(x, "rc", 1, x.nt)) * Sign(SumN(x, "zs", 1, x.nt)) < 0
(* angles: cosine c / h, sine s / h *)
Quarters == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>}
Units == Quarters \cup {<<a * 3, d * 4, 5>> : a, d \in {-1, 1}} \cup {<<a * 4, d * 3, 5>> : a, d \in {-1, 1}}
RECURSIVE Pow(_, _), Turn(_, _)
Pow(h, m) == IF m = 0 THEN 1 ELSE h * Pow(h, m - 1)
Turn(u, m) == IF m = 0 THEN <<1, 0>> ELSE LET p == Turn(u, m - 1) IN <<p[1] * u[1] - p[2] * u[2], p[1] * u[2] + p[2] * u[1]>>     \* h^m times (cos m d, sin m d)
Exact(v, d) == IF v % d = 0 THEN v \div d ELSE Assert(FALSE, "not divisible")
(* t -> t + d *)
Shift(x, u) ==
  LET F(kk, m, n) == LET p == Turn(u, m)  h == Pow(u[3], m) IN
        Exact(CASE kk = "rc" -> A(x, "rc", m, n) * p[1] + A(x, "rs", m, n) * p[2]
                [] kk = "rs" -> A(x, "rs", m, n) * p[1] - A(x, "rc", m, n) * p[2]
                [] kk = "zc" -> A(x, "zc", m, n) * p[1] + A(x, "zs", m, n) * p[2]
                [] kk = "zs" -> A(x, "zs", m, n) * p[1] - A(x, "zc", m, n) * p[2], h)
  IN Build(x.mp, x.nt, x.la, F)
Back(u) == <<u[1], -u[2], u[3]>>
Angle(x) ==
  LET p == A(x, "rc", 1, 0) + A(x, "zs", 1, 0)  q == A(x, "rs", 1, 0) - A(x, "zc", 1, 0) IN
  IF p = 0 /\ q = 0 THEN <<1, 0, 1>> ELSE CHOOSE u \in Units : u[1] * q = u[2] * p /\ u[1] * p + u[2] * q > 0
Shifted(x) == IF x.la THEN Shift(x, Angle(x)) ELSE x
Turned(x) == NeedsFlip(Shifted(x))
(* at m = 0 only the sum of n and -n enters *)
Fold(x) == LET F(kk, m, n) == IF m > 0 THEN A(x, kk, m, n)
                              ELSE IF n < 0 \/ (n = 0 /\ kk \in {"zs", "rs"}) THEN 0
                              ELSE IF n = 0 THEN A(x, kk, 0, 0)
                              ELSE A(x, kk, 0, n) + (IF kk \in {"rc", "zc"} THEN 1 ELSE -1) * A(x, kk, 0, -n)
           IN Build(x.mp, x.nt, x.la, F)
Normal(x) == Fold(IF Turned(x) THEN Flip(Shifted(x)) ELSE Shifted(x))
(* twice the coefficients of the product basis the solver iterates on, in the order R, Z / basis / n / m, with the
   combinations of the m = 1 constraint *)
Both(x, kk, m, n) == IF n = 0 THEN A(x, kk, m, 0) ELSE A(x, kk, m, n) + A(x, kk, m, -n)
Diff(x, kk, m, n) == IF n = 0 THEN 0 ELSE A(x, kk, m, n) - A(x, kk, m, -n)
Raw(x, name, m, n) ==
  CASE name = "rcc" -> Both(x, "rc", m, n)
    [] name = "rss" -> IF m = 0 THEN 0 ELSE Diff(x, "rc", m, n)
    [] name = "zsc" -> IF m = 0 THEN 0 ELSE Both(x, "zs", m, n)
    [] name = "zcs" -> -Diff(x, "zs", m, n)
    [] name = "rsc" -> IF m = 0 THEN 0 ELSE Both(x, "rs", m, n)
    [] name = "rcs" -> -Diff(x, "rs", m, n)
    [] name = "zcc" -> Both(x, "zc", m, n)
    [] name = "zss" -> IF m = 0 THEN 0 ELSE Diff(x, "zc", m, n)
Inner(x, name, m, n) ==
  IF m # 1 THEN 2 * Raw(x, name, m, n)
  ELSE CASE name = "rss" -> Raw(x, "rss", m, n) + Raw(x, "zcs", m, n)
         [] name = "zcs" -> Raw(x, "rss", m, n) - Raw(x, "zcs", m, n)
         [] name = "rsc" -> Raw(x, "rsc", m, n) + Raw(x, "zcc", m, n)
         [] name = "zcc" -> Raw(x, "rsc", m, n) - Raw(x, "zcc", m, n)
         [] OTHER -> 2 * Raw(x, name, m, n)
Names(x) == IF x.la /\ x.nt > 0 THEN <<"rcc", "rss", "rsc", "rcs", "zsc", "zcs", "zcc", "zss">>
            ELSE IF x.la THEN <<"rcc", "rsc", "zsc", "zcc">>
            ELSE IF x.nt > 0 THEN <<"rcc", "rss", "zsc", "zcs">> ELSE <<"rcc", "zsc">>
(* the vector of the edge, twice the coefficients *)
Vector(x) == LET w == (x.nt + 1) * x.mp IN
  [i \in 1..(Len(Names(x)) * w) |-> Inner(x, Names(x)[(i - 1) \div w + 1], (i - 1) % x.mp, ((i - 1) % w) \div x.mp)]

(* a boundary in the solver's own frame: a torus of minor radius about one with a few small ripples; unit 1/40000;
   multiples of 25^m so that 3-4-5 turns stay exact *)
Base(mp, nt, la, e, rip) == Build(mp, nt, la, LAMBDA kk, m, n :
    IF m = 0 /\ n = 0 THEN (IF kk = "rc" THEN 160000 ELSE 0)
    ELSE IF m = 1 /\ n = 0 THEN (CASE kk = "rc" -> 40000 [] kk = "zs" -> 40000 + 500 * e[1] [] kk = "rs" -> IF la THEN 500 * e[2] ELSE 0 [] OTHER -> IF la THEN 500 * e[3] ELSE 0)
    ELSE IF ~la /\ kk \in {"rs", "zc"} THEN 0
    ELSE rip[<<kk, m, n>>] * (CASE m = 0 -> 500 [] m = 1 -> 500 [] m = 2 -> 625 [] OTHER -> 300))
Ripple(mp, nt) == [p \in {<<kk, m, n>> : kk \in Ks, m \in 0..(mp - 1), n \in (-nt)..nt} |-> IF RandomElement(1..3) = 1 THEN RandomElement(-3..3) ELSE 0]
=============================================================================
