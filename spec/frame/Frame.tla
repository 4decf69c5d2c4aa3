------------------------------- MODULE Frame -------------------------------
(* The outermost surface of a solve.

   Boundaries and the solver's own frame: Surface.

   While a fixed-boundary solve runs, its edge is Normal(b) whatever happens to the surfaces inside: steps,
   returns to a checkpoint, restarts with another axis, a finer grid, a start from a stored solution with another
   boundary.                                                                                                     *)
EXTENDS Surface, Json, IOUtils
CONSTANTS Pairs,          \* ripples in pairs (else single ones)
          TraceFile, MaxSteps, Emitting
VARIABLES b, free, edge, inner, saved, steps, k
vars == <<b, free, edge, inner, saved, steps, k>>
(* ------------------------------------------------------------------ laws of the frame *)
(* points of the surface at quarter turns of both angles *)
C4(i) == CASE i % 4 = 0 -> 1 [] i % 4 = 2 -> -1 [] OTHER -> 0
S4(i) == CASE i % 4 = 1 -> 1 [] i % 4 = 3 -> -1 [] OTHER -> 0
RECURSIVE Over(_, _, _, _, _, _)
Over(x, kc, ks, t, z, i) == IF i = 0 THEN 0 ELSE
  LET m == (i - 1) \div (2 * x.nt + 1)  n == ((i - 1) % (2 * x.nt + 1)) - x.nt  ph == m * t - n * z + 4 * 64 IN
  A(x, kc, m, n) * C4(ph) + A(x, ks, m, n) * S4(ph) + Over(x, kc, ks, t, z, i - 1)
Point(x, t, z) == LET w == x.mp * (2 * x.nt + 1) IN <<Over(x, "rc", "rs", t, z, w), Over(x, "zc", "zs", t, z, w)>>
Points(x, z) == {Point(x, t, z) : t \in 0..3}
Involution == steps = 0 => (Flip(Flip(b)) = b)
NeverTwice == steps = 0 => (~NeedsFlip(Normal(b)) \/ (b.la /\ NeedsFlip(Shifted(Normal(b))) = FALSE))
SymmetricIdempotent == steps = 0 => (~b.la => Normal(Normal(b)) = Normal(b))
ShiftedIsCanonical == steps = 0 => (b.la => A(Shifted(b), "rs", 1, 0) = A(Shifted(b), "zc", 1, 0) /\ Sign(A(Shifted(b), "rc", 1, 0) + A(Shifted(b), "zs", 1, 0)) >= 0)
SameSurface == steps = 0 => ((~b.la \/ Angle(b) \in Quarters) => \A z \in 0..3 : Points(Normal(b), z) = Points(b, z))
OneFrame == steps = 0 => (~b.la => Normal(Flip(b)) = Normal(b) \/ SumN(b, "rc", 1, b.nt) = 0 \/ SumN(b, "zs", 1, b.nt) = 0)
SameVector == steps = 0 => (Vector(Normal(b)) = Vector(Fold(Normal(b))))

(* ------------------------------------------------------------------ the solve *)
Values == {-2, 1}
Small(la, nt) ==
  LET pos == {<<kk, m, n>> : kk \in (IF la THEN Ks ELSE {"rc", "zs"}), m \in 0..2, n \in (-nt)..nt} IN
  {Build(3, nt, la, LAMBDA kk, m, n : IF kk = "rc" /\ m = 0 /\ n = 0 THEN 9 ELSE IF kk = "rc" /\ m = 1 /\ n = 0 THEN sr ELSE IF kk = "zs" /\ m = 1 /\ n = 0 THEN sz
      ELSE IF <<kk, m, n>> = p1 THEN v1 ELSE IF <<kk, m, n>> = p2 THEN v2 ELSE 0) : sr \in {3, -3}, sz \in {3, -3}, p1 \in pos, p2 \in (IF Pairs THEN pos ELSE {<<"rc", 1, 0>>}), v1 \in Values, v2 \in {1}}
Fits(x) == ~x.la \/ LET p == A(x, "rc", 1, 0) + A(x, "zs", 1, 0)  q == A(x, "rs", 1, 0) - A(x, "zc", 1, 0) IN p = 0 \/ q = 0
Init == /\ \E la \in BOOLEAN, nt \in 0..1 : b \in {x \in Small(la, nt) : Fits(x)}
        /\ free \in BOOLEAN /\ edge = Normal(b) /\ inner = 0 /\ saved = <<edge, 0>> /\ steps = 0 /\ k = 0
Move(e, i) == /\ inner' = i /\ edge' = (IF free THEN e ELSE edge)
Next == /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED <<b, free, k>>
        /\ \/ Move(Flip(edge), inner + 1) /\ UNCHANGED saved                                   \* a step (of a free boundary: anywhere)
           \/ saved' = <<edge, inner>> /\ UNCHANGED <<edge, inner>>                            \* checkpoint
           \/ edge' = saved[1] /\ inner' = saved[2] /\ UNCHANGED saved                         \* return to it
           \/ inner' = 100 + inner /\ edge' = Normal(b) /\ saved' = <<edge', inner'>>          \* begin anew with another axis
           \/ inner' = -inner /\ UNCHANGED edge /\ saved' = <<edge, inner'>>                   \* a finer grid
Spec == Init /\ [][Next]_vars
FixedEdge == ~free => edge = Normal(b) /\ saved[1] = Normal(b)

(* ------------------------------------------------------------------ cases for the implementation *)
Pick(S) == RandomElement(IF steps >= 0 THEN S ELSE S)
GInit == b = <<>> /\ free = FALSE /\ edge = <<>> /\ inner = 0 /\ saved = <<>> /\ steps = 0 /\ k = 0
GNext == /\ steps = 0 /\ steps' = 1
         /\ \E mp \in {Pick(2..4)}, nt \in {Pick(0..2)}, la \in {Pick(BOOLEAN)}, fl \in {Pick(BOOLEAN)}, e1 \in {Pick((-20..20) \ {0})}, e2 \in {Pick(-12..12)} :
            \E u \in {Pick(IF la THEN (IF mp = 4 THEN Quarters ELSE Units) ELSE {<<1, 0, 1>>})}, rip \in {Ripple(mp, nt)} :
            LET base == Base(mp, nt, la, <<e1, e2, IF fl THEN -e2 ELSE e2>>, rip)
                turned == IF fl THEN Flip(base) ELSE base
                given == Shift(turned, Back(u))
            IN b' = given /\ edge' = Normal(given) /\ inner' = (IF Turned(given) THEN 1 ELSE 0) /\ saved' = Flip(given)
         /\ UNCHANGED <<free, k>>
GSpec == GInit /\ [][GNext]_vars
Emit == (Emitting /\ steps = 1) => PrintT("@@" \o ToJson([b |-> b, normal |-> edge, turned |-> (inner = 1), flip |-> saved]))

(* ------------------------------------------------------------------ recorded solves *)
(* [e |-> "solve", b, free], [e |-> "edge", x (vector of twice the coefficients), times], [e |-> "output", x (a boundary)] *)
Trace == ndJsonDeserialize(TraceFile)
TInit == k = 1 /\ b = <<>> /\ free = FALSE /\ edge = <<>> /\ inner = 0 /\ saved = <<>> /\ steps = 0
Judge(ev) ==
  CASE ev.e = "solve" -> ""
    [] ev.e = "edge" -> IF free \/ ev.x = saved THEN "" ELSE "the outermost surface moved away from the prescribed boundary"
    [] ev.e = "output" -> IF free \/ (\A kk \in Ks : ev.x[kk] = edge[kk]) THEN "" ELSE "the outermost surface in the output is not the prescribed boundary"
TNext == /\ k <= Len(Trace) /\ k' = k + 1
         /\ LET ev == Trace[k]  d == Judge(ev) IN
            /\ IF d = "" THEN TRUE ELSE PrintT("@@REJECT" \o ToJson([record |-> k, why |-> d]))
            /\ IF ev.e = "solve" THEN b' = ev.b /\ free' = ev.free /\ edge' = Normal(ev.b) /\ saved' = Vector(edge') ELSE UNCHANGED <<b, free, edge, saved>>
         /\ UNCHANGED <<inner, steps>>
         /\ IF k < Len(Trace) THEN TRUE ELSE PrintT("@@DONE" \o ToJson(k))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
