----------------------------- MODULE Partition -----------------------------
(* Distribution of the radial locations 0..ns-1 (and the half-grid points 0..ns-2 between them) over
   the workers of one solve, and of the points of the angular grid over the workers of the vacuum
   solve.

   A worker OWNS the surfaces it advances.  To do so it reads the neighbouring surfaces of those it
   owns and the half-grid points next to them; the worker that reads the outermost surface also
   computes what is needed there in a fixed-boundary run.  `Good` is the requirement; it says nothing
   about how evenly the work is spread.  `Split` is the scheme of the code; TLC shows for all sizes
   within the bounds that it meets the requirement, and that the hand-over of the overlaps between
   neighbours is possible (every surface a worker reads but does not own is owned by a neighbouring
   worker, or is the fixed boundary).  Recorded distributions of the real code are then judged with
   the same operators (Recorded).                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxNs, MaxPoints, TraceFile

Locations(ns) == 0..(ns - 1)
Advanced(ns, free) == IF free THEN 0..(ns - 1) ELSE 0..(ns - 2)
Rng(a, b) == a..(b - 1)                       \* [a, b)

(* what a worker with the owned surfaces O must have at hand *)
Reads(O, ns) == {j + d : j \in O, d \in {-1, 0, 1}} \cap Locations(ns)
Half(O, ns) == LET R == Reads(O, ns) IN {h \in R : h + 1 \in R}
Interior(O, ns) == O \ {0, ns - 1}
HasEdge(O, ns) == (ns - 1) \in Reads(O, ns)
WithEdge(O, ns) == O \cup (IF HasEdge(O, ns) THEN {ns - 1} ELSE {})

Total(n, F(_)) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE F(i) + S(i - 1) IN S(n)
Own(w) == Rng(w.minF, w.maxF)
Good(ns, free, ws) ==
  LET n == Len(ws) IN
  /\ n >= 1
  /\ \A i \in 1..n : Own(ws[i]) # {}                                          \* nobody idles
  /\ UNION {Own(ws[i]) : i \in 1..n} = Advanced(ns, free)                     \* complete
  /\ Total(n, LAMBDA i : Cardinality(Own(ws[i]))) = Cardinality(Advanced(ns, free)) \* exactly one each
  /\ \A i \in 1..(n - 1) : ws[i].maxF = ws[i + 1].minF                        \* neighbours are neighbours
  /\ \A i \in 1..n :
       /\ Rng(ws[i].minF1, ws[i].maxF1) = Reads(Own(ws[i]), ns)
       /\ Rng(ws[i].minH, ws[i].maxH) = Half(Own(ws[i]), ns)
       /\ Rng(ws[i].minFi, ws[i].maxFi) = Interior(Own(ws[i]), ns)
       /\ Rng(ws[i].minF, ws[i].maxFL) = WithEdge(Own(ws[i]), ns)
       /\ ws[i].edge = HasEdge(Own(ws[i]), ns)
  /\ Cardinality({i \in 1..n : ws[i].edge}) = 1                               \* one worker looks after the edge
(* what a worker reads without owning it comes from the worker next to it *)
HandOver(ns, free, ws) ==
  \A i \in 1..Len(ws) : \A j \in Reads(Own(ws[i]), ns) \ Own(ws[i]) :
    \/ (~free /\ j = ns - 1)
    \/ (i > 1 /\ j \in Own(ws[i - 1])) \/ (i < Len(ws) /\ j \in Own(ws[i + 1]))
GoodPoints(points, ws) ==
  LET n == Len(ws) IN
  /\ n >= 1
  /\ \A i \in 1..n : Rng(ws[i][1], ws[i][2]) # {}
  /\ UNION {Rng(ws[i][1], ws[i][2]) : i \in 1..n} = 0..(points - 1)
  /\ ws[1][1] = 0 /\ ws[n][2] = points
  /\ \A i \in 1..(n - 1) : ws[i][2] = ws[i + 1][1]

(* ------------------------------------------------------------------ the scheme of the code *)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Count(ns, free, asked) == Min(asked, (IF free THEN ns ELSE ns - 1) \div 2)
Piece(total, n, i) == LET q == total \div n  r == total % n
                          lo == i * q + Min(i, r)
                          hi == (i + 1) * q + Min(i + 1, r)
                      IN <<lo, hi>>
Worker(ns, free, n, i) ==
  LET p == Piece(IF free THEN ns ELSE ns - 1, n, i)
      lo == Max(0, p[1] - 1)   hi == Min(ns, p[2] + 1)
  IN [minF |-> p[1], maxF |-> p[2], minF1 |-> lo, maxF1 |-> hi, minH |-> lo, maxH |-> hi - 1,
      minFi |-> Max(1, p[1]), maxFi |-> Min(ns - 1, p[2]), maxFL |-> (IF hi = ns THEN ns ELSE p[2]), edge |-> (hi = ns)]
Split(ns, free, n) == [i \in 1..n |-> Worker(ns, free, n, i - 1)]
SplitPoints(points, n) == [i \in 1..n |-> Piece(points, n, i - 1)]

VARIABLES ns, free, n, points, k
vars == <<ns, free, n, points, k>>
Init == /\ ns \in 3..MaxNs /\ free \in BOOLEAN /\ n \in 1..Count(ns, free, MaxNs) /\ points = 0 /\ k = 0
        \/ /\ ns = 0 /\ free = FALSE /\ points \in 1..MaxPoints /\ n \in 1..points /\ k = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
SchemeGood == ns > 0 => Good(ns, free, Split(ns, free, n)) /\ HandOver(ns, free, Split(ns, free, n))
PointsGood == points > 0 => GoodPoints(points, SplitPoints(points, n))

(* ------------------------------------------------------------------ recorded distributions *)
Trace == ndJsonDeserialize(TraceFile)
Fields(w) == [minF |-> w[1], maxF |-> w[2], minF1 |-> w[3], maxF1 |-> w[4], minH |-> w[5], maxH |-> w[6], minFi |-> w[7], maxFi |-> w[8], maxFL |-> w[9], edge |-> (w[10] = 1)]
Bad(r) ==
  IF r.kind = "radial" THEN
       LET ws == [i \in 1..Len(r.w) |-> Fields(r.w[i])] IN
       IF Len(ws) > Max(1, r.asked) THEN "more workers than were asked for"
       ELSE IF ~Good(r.ns, r.free, ws) THEN "the surfaces are not distributed exactly once with the neighbours each worker needs"
       ELSE IF ~HandOver(r.ns, r.free, ws) THEN "a surface a worker needs is not held by a worker next to it"
       ELSE ""
  ELSE IF Len(r.w) > Max(1, r.asked) THEN "more workers than were asked for"
  ELSE IF ~GoodPoints(r.points, r.w) THEN "the points of the angular grid are not distributed exactly once in order"
  ELSE ""
TInit == k = 1 /\ ns = 0 /\ free = FALSE /\ n = 0 /\ points = 0
TNext == /\ k <= Len(Trace)
         /\ LET b == Bad(Trace[k]) IN IF b = "" THEN TRUE ELSE PrintT("@@REJECT" \o ToJson([record |-> k, why |-> b]))
         /\ IF k < Len(Trace) THEN TRUE ELSE PrintT("@@DONE" \o ToJson(k))
         /\ k' = k + 1 /\ UNCHANGED <<ns, free, n, points>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
