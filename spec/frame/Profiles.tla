------------------------------ MODULE Profiles ------------------------------
(* Radial profiles: what a prescribed pressure, rotational transform or current, together with the distribution of
   the enclosed toroidal flux, means on the radial grid.  Values are exact fractions <<num, den>>, den > 0.

   Position s of half grid point j of ns surfaces: (2 j - 1) / (2 (ns - 1)).  Profiles are functions of the enclosed
   flux x(s) = SUM aphi_i s^i, cut at 1; pressure and current positions are stretched by bloat (and cut at 1), and the
   pressure is constant outside ped.  The enclosed current is normalised to its edge value.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Emitting
VARIABLES case, n
vars == <<case, n>>
RECURSIVE Gcd(_, _)
Gcd(a, c) == IF c = 0 THEN a ELSE Gcd(c, a % c)
Abs(a) == IF a < 0 THEN -a ELSE a
Q(a, c) == LET g == Gcd(Abs(a), c) IN <<a \div g, c \div g>>
Neg(x) == <<-x[1], x[2]>>
Mul(x, y) == LET g == Gcd(Abs(x[1]), y[2])  h == Gcd(Abs(y[1]), x[2]) IN Q((x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g))
Add(x, y) == LET g == Gcd(x[2], y[2]) IN Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
Sub(x, y) == Add(x, Neg(y))
Inv(x) == IF x[1] > 0 THEN <<x[2], x[1]>> ELSE <<-x[2], -x[1]>>
Div(x, y) == Mul(x, Inv(y))
I(a) == <<a, 1>>
Zero(x) == x[1] = 0
Less(x, y) == Sub(x, y)[1] < 0
Leq(x, y) == ~Less(y, x)
Min(x, y) == IF Less(x, y) THEN x ELSE y
RECURSIVE QPow(_, _)
QPow(x, e) == IF e = 0 THEN I(1) ELSE Mul(x, QPow(x, e - 1))
(* ------------------------------------------------------------------ families of profiles *)
RECURSIVE Horner(_, _, _), HornerI(_, _, _)
Horner(c, x, i) == IF i > Len(c) THEN I(0) ELSE Add(I(c[i]), Mul(x, Horner(c, x, i + 1)))
Poly(c, x) == Horner(c, x, 1)
HornerI(c, x, i) == IF i > Len(c) THEN I(0) ELSE Add(Q(c[i], i), Mul(x, HornerI(c, x, i + 1)))
PolyInt(c, x) == Mul(x, HornerI(c, x, 1))
PolyI(c, x) == Mul(x, Poly(c, x))
(* tables: knots (eighths, ascending) and values; constant outside *)
Seg(kn, v, x) ==
  IF Leq(x, Q(kn[1], 8)) THEN I(v[1]) ELSE IF Leq(Q(kn[Len(kn)], 8), x) THEN I(v[Len(v)])
  ELSE LET i == CHOOSE i \in 1..(Len(kn) - 1) : Leq(Q(kn[i], 8), x) /\ Less(x, Q(kn[i + 1], 8))
           t == Div(Sub(x, Q(kn[i], 8)), Q(kn[i + 1] - kn[i], 8))
       IN Add(I(v[i]), Mul(t, I(v[i + 1] - v[i])))
RECURSIVE SegInt(_, _, _, _)
(* area under the table from 0 to x: trapezoids between the points 0, knots below x, x *)
SegInt(kn, v, x, i) ==
  LET lo == IF i = 0 THEN I(0) ELSE Q(kn[i], 8)
      hi == IF i = Len(kn) THEN x ELSE Min(x, Q(kn[i + 1], 8))
      piece == IF Less(lo, hi) THEN Mul(Sub(hi, lo), Mul(<<1, 2>>, Add(Seg(kn, v, lo), Seg(kn, v, hi)))) ELSE I(0)
  IN IF i = Len(kn) THEN piece ELSE Add(piece, SegInt(kn, v, x, i + 1))
TwoPower(c, x) == Mul(I(c[1]), QPow(Sub(I(1), QPow(x, c[2])), c[3]))
RECURSIVE Binomial(_, _)
Binomial(q, i) == IF i = 0 \/ i = q THEN 1 ELSE Binomial(q - 1, i - 1) + Binomial(q - 1, i)
RECURSIVE TwoPowerInt(_, _, _)
TwoPowerInt(c, x, i) == IF i > c[3] THEN I(0) ELSE
  Add(Mul(Q((IF i % 2 = 1 THEN -1 ELSE 1) * c[1] * Binomial(c[3], i), c[2] * i + 1), QPow(x, c[2] * i + 1)), TwoPowerInt(c, x, i + 1))
Ratio(c, x) == Div(Poly(c.num, x), Poly(c.den, x))
Lor(w, x) == Div(I(w), Add(I(w), x))                                       \* 1 / (1 + x / w)
Lor1(w, x) == Div(Sub(Lor(w, x), Lor(w, I(1))), Sub(I(1), Lor(w, I(1))))
TwoLor(c, x) == Mul(I(c[1]), Add(Mul(Q(c[2], 2), Lor1(c[3] * c[3], x)), Mul(Q(2 - c[2], 2), Lor1(c[4] * c[4], x))))
Nice(c, x) == Add(Add(Mul(I(c[1]), Sub(I(1), x)), Mul(I(c[2]), x)), Mul(I(4 * c[3]), Mul(x, Sub(I(1), x))))
(* smooth tables: interpolation is exact at the knots and for values taken from a parabola *)
At(kn, v, x) == I(v[CHOOSE i \in 1..Len(kn) : Q(kn[i], 8) = x])
Value(f, x) ==
  CASE f.type \in {"power_series", "pedestal", "akima_parabola", "cubic_parabola"} -> Poly(f.c, x)
    [] f.type \in {"power_series_int", "pedestal_int", "akima_parabola_int", "cubic_parabola_int"} -> PolyInt(f.c, x)
    [] f.type = "power_series_i" -> PolyI(f.c, x)
    [] f.type \in {"line_segment", "line_segment_i"} -> Seg(f.kn, f.v, x)
    [] f.type = "line_segment_ip" -> SegInt(f.kn, f.v, x, 0)
    [] f.type \in {"two_power", "two_power_gs"} -> TwoPower(f.c, x)
    [] f.type \in {"two_power_int", "two_power_gs_int"} -> TwoPowerInt(f.c, x, 0)
    [] f.type = "rational" -> Ratio(f.c, x)
    [] f.type = "two_lorentz" -> TwoLor(f.c, x)
    [] f.type = "nice_quadratic" -> Nice(f.c, x)
    [] f.type \in {"akima_knots", "cubic_knots"} -> At(f.kn, f.v, x)
(* ------------------------------------------------------------------ on the grid *)
HalfPos(ns, j) == Q(2 * j - 1, 2 * (ns - 1))
(* aphi in quarters *)
Flux(a, s) == Mul(<<1, 4>>, PolyI(a, s))
FluxPrime(a, s) == Mul(<<1, 4>>, Poly([i \in 1..Len(a) |-> i * a[i]], s))
X(p, s) == Min(Flux(p.aphi, s), I(1))
Stretch(p, x) == Min(Mul(x, Q(1, p.bloat)), I(1))
Half(p, F(_)) == [j \in 1..(p.ns - 1) |-> F(HalfPos(p.ns, j))]
Pressure(p) == Half(p, LAMBDA s : Value(p.pres, Stretch(p, X(p, Min(s, Q(p.ped, 8))))))
Iota(p) == Half(p, LAMBDA s : Value(p.iota, X(p, s)))
Edge(p) == Value(p.curr, Stretch(p, I(1)))
Current(p) == Half(p, LAMBDA s : IF Zero(Edge(p)) THEN I(0) ELSE Div(Value(p.curr, Stretch(p, X(p, s))), Edge(p)))
Enclosed(p) == [j \in 1..p.ns |-> Flux(p.aphi, Q(j - 1, p.ns - 1))]
(* ------------------------------------------------------------------ cases *)
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE S)
Coef(len) == [i \in 1..len |-> RandomElement(-3..5)]
Table(top) ==
  LET inside == {i \in 1..7 : RandomElement(1..2) = 1}
      ks == TLCEval({IF RandomElement(1..4) = 1 THEN 1 ELSE 0} \cup inside \cup {top})
      RECURSIVE Sorted(_)
      Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A c \in S : a <= c IN <<a>> \o Sorted(S \ {a})
      kn == TLCEval(Sorted(ks))
  IN [kn |-> kn, v |-> [i \in 1..Len(kn) |-> RandomElement(-3..6)]]
Types(what, plain) ==
  CASE what = "pres" -> IF plain THEN {"power_series", "two_power", "two_power_gs", "rational", "two_lorentz", "line_segment", "pedestal", "akima_parabola", "cubic_parabola", "akima_knots", "cubic_knots"} ELSE {"power_series", "line_segment", "pedestal", "cubic_parabola", "akima_parabola"}
    [] what = "iota" -> IF plain THEN {"power_series", "rational", "line_segment", "nice_quadratic", "akima_parabola", "cubic_parabola", "akima_knots", "cubic_knots"} ELSE {"power_series", "line_segment", "nice_quadratic", "akima_parabola", "cubic_parabola"}
    [] what = "curr" -> IF plain THEN {"power_series_int", "power_series_i", "two_power_int", "two_power_gs_int", "rational", "line_segment_i", "line_segment_ip", "pedestal_int", "akima_knots", "cubic_knots", "akima_parabola_int", "cubic_parabola_int"} ELSE {"power_series_i", "line_segment_i", "line_segment_ip"}
Func(t, deg, knots) ==
  CASE t \in {"power_series", "pedestal", "power_series_int", "pedestal_int"} -> [type |-> t, c |-> Coef(RandomElement(1..deg))]
    [] t = "power_series_i" -> [type |-> t, c |-> Coef(RandomElement(1..2))]
    [] t \in {"akima_parabola", "cubic_parabola", "akima_parabola_int", "cubic_parabola_int"} -> [type |-> t, c |-> Coef(3)]
    [] t \in {"line_segment", "line_segment_i", "line_segment_ip"} -> LET tb == Table(IF RandomElement(1..3) = 1 THEN 7 ELSE 8) IN [type |-> t, kn |-> tb.kn, v |-> tb.v]
    [] t \in {"two_power", "two_power_gs", "two_power_int", "two_power_gs_int"} -> [type |-> t, c |-> <<RandomElement(1..4), RandomElement(1..2), RandomElement(1..2)>>]
    [] t = "rational" -> [type |-> t, c |-> [num |-> Coef(2), den |-> <<RandomElement(2..4), RandomElement(0..3)>>]]
    [] t = "two_lorentz" -> [type |-> t, c |-> <<RandomElement(1..4), RandomElement(0..2), RandomElement(1..3), RandomElement(1..3)>>]
    [] t = "nice_quadratic" -> [type |-> t, c |-> <<RandomElement(1..4), RandomElement(-2..4), RandomElement(-1..1)>>]
    [] t \in {"akima_knots", "cubic_knots"} -> [type |-> t, kn |-> knots, v |-> [i \in 1..Len(knots) |-> RandomElement(-3..6)]]
Init == n = 0 /\ case = <<>>
Next == /\ n = 0 /\ n' = 1
        /\ \E plain \in {Pick(1..3) > 1}, nc \in {Pick(0..1)} :
           \E ns \in {Pick(IF plain THEN {3, 4, 5, 7, 9} ELSE {3, 4, 5, 7})}, aphi \in {IF plain THEN <<4>> ELSE Pick({<<2, 2>>, <<6, -2>>, <<3, 1>>, <<4, -1, 1>>, <<1, 3>>, <<8>>, <<2>>})} :
           \E bloat \in {IF plain \/ nc = 0 \/ Len(aphi) > 2 THEN 1 ELSE Pick({1, 2})}, ped \in {IF Pick(1..2) = 1 THEN 8 ELSE Pick(IF plain THEN {3, 4, 6} ELSE {4})} :
           \E pt \in {Pick(Types("pres", plain))}, it \in {Pick(Types("iota", plain))}, ct \in {Pick(Types("curr", plain))} :
           LET kn == IF ns = 5 THEN <<0, 1, 3, 5, 7, 8>> ELSE <<0, 2, 4, 6, 8>>
               Fit(t, other) == IF (ns \notin {3, 5} \/ ped # 8) /\ t \in {"akima_knots", "cubic_knots"} THEN other ELSE t
           IN case' = [ns |-> ns, nc |-> nc, aphi |-> aphi, bloat |-> bloat, ped |-> ped,
                       pres |-> Func(Fit(pt, "power_series"), IF plain THEN 4 ELSE 3, kn), iota |-> Func(Fit(it, "power_series"), IF plain THEN 4 ELSE 3, kn), curr |-> Func(Fit(ct, "line_segment_i"), 3, kn)]
Spec == Init /\ [][Next]_vars
(* laws *)
Defined == n = 1 => \A j \in 1..(case.ns - 1) : Pressure(case)[j][2] > 0
Same(x, y) == x[1] * y[2] = y[1] * x[2]
(* the enclosed current ends at its edge value and a table is met at its knots *)
EndsAtOne == n = 1 /\ ~Zero(Edge(case)) => Div(Value(case.curr, Stretch(case, I(1))), Edge(case)) = I(1)
Met(f) == f.type \in {"line_segment", "line_segment_i"} => \A i \in 1..Len(f.kn) : Seg(f.kn, f.v, Q(f.kn[i], 8)) = I(f.v[i])
TablesMet == n = 1 => Met(case.pres) /\ Met(case.iota) /\ Met(case.curr)
Emit == (Emitting /\ n = 1) => PrintT("@@" \o ToJson([p |-> case, pres |-> Pressure(case), iota |-> Iota(case), curr |-> Current(case), edge |-> Edge(case), flux |-> Enclosed(case)]))
=============================================================================
