------------------------------ MODULE Fields -------------------------------
(* External field tables: where they come from, how a provider combines them
   and what a solve sees.

   Part 1 (Table): the grid of a response table is p planes x z rows x r
   columns, stored plane by plane.  It is either evaluated everywhere or, for
   stellarator-symmetric coils, on planes 0..p/2 only and mirrored into the
   others.  Src and Sgn say, for every stored index, at which grid point the
   field is evaluated and with which sign of the radial component.

   Part 2 (Provider): a provider loads tables, from memory or from a file,
   with a vector of circuit currents, and is queried at points of the grid and
   half way between them.  Table entries and currents are integers, so that the
   expected field is exact: four times the field at a half point is an
   integer.  A defective load is refused; what the provider holds after a
   refusal is left open until the next successful load. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Part, MaxSteps, MaxP, MaxZ, MaxR, MaxC, Currents, Gen, Broken
CurSmall == {-2, 3}
CurLarge == {-4, -2, -1, 0, 1, 3, 5}

VARIABLES shape, table, steps
vars == <<shape, table, steps>>
Shapes == [p : 1..MaxP, z : 2..MaxZ, r : 2..MaxR]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------------ part 1 *)
Lin(s, k, j, i) == (k * s.z + j) * s.r + i
KOf(s, l) == l \div (s.z * s.r)
JOf(s, l) == (l % (s.z * s.r)) \div s.r
IOf(s, l) == l % s.r
Size(s) == s.p * s.z * s.r
CanMirror(s) == s.p % 2 = 0
Evaluated(s, sym) == IF sym THEN (s.p \div 2 + 1) * s.z * s.r ELSE Size(s)
Src(s, sym, l) == IF l < Evaluated(s, sym) \/ ~sym THEN l
                  ELSE Lin(s, s.p - KOf(s, l), IF Broken = "mirror" THEN JOf(s, l) ELSE s.z - 1 - JOf(s, l), IOf(s, l))
Sgn(s, sym, l) == IF Src(s, sym, l) = l THEN 1 ELSE -1

(* coordinates: phi in units of a field period over p, height in half cells above the midplane *)
Height(s, l) == 2 * JOf(s, l) - (s.z - 1)
MirrorIsRight == Part = 1 =>
  \A sym \in BOOLEAN : (sym => CanMirror(shape)) =>
    \A l \in 0..(Size(shape) - 1) :
      LET q == Src(shape, sym, l) IN
        /\ 0 <= q /\ q < Evaluated(shape, sym)
        /\ IOf(shape, q) = IOf(shape, l)
        /\ q # l => /\ KOf(shape, q) + KOf(shape, l) = shape.p
                    /\ Height(shape, q) = -Height(shape, l)
        /\ (~sym => q = l)
Onto == Part = 1 => Cardinality({<<KOf(shape, l), JOf(shape, l), IOf(shape, l)>> : l \in 0..(Size(shape) - 1)}) = Size(shape)

(* ------------------------------------------------------------------ part 2 *)
Entry(t, c, comp, l) == ((t.salt * 5 + c * 7 + comp * 11 + l * 3 + l \div 4) % 23) - 11
Field(t, comp, l) == LET sum[c \in 0..t.circuits] == IF c = 0 THEN 0 ELSE sum[c - 1] + t.currents[c] * Entry(t, c, comp, l) IN sum[t.circuits]
(* position in half cells, cropped to the grid *)
Crop(x, n) == Max2(0, Min2(x, 2 * (n - 1)))
W(x, a) == IF a = 0 THEN 2 - (x % 2) ELSE x % 2
At4(t, comp, k, jj, ii) ==
  LET x == Crop(ii, t.s.r)
      y == Crop(jj, t.s.z)
      Pt(b, a) == Lin(t.s, k, Min2(t.s.z - 1, y \div 2 + b), Min2(t.s.r - 1, x \div 2 + a))
      Term(b, a) == W(y, b) * W(x, a) * Field(t, comp, Pt(b, a))
  IN Term(0, 0) + Term(0, 1) + Term(1, 0) + Term(1, 1)

MemDefects == {"morecurrents", "fewercurrents", "rowsbr", "rowsbz", "columnsbr", "columnsbp", "columnsbz", "extracolumns", "extent", "oner", "onez", "nophi", "nofieldperiods"}
FileDefects == {"morecurrents", "fewercurrents", "missing", "garbage", "novar", "noscalar", "kp", "jz", "ir", "rank", "extent", "oner", "onez", "nophi", "text", "nofieldperiods"}
Paths == {"memory", "file", "float", "written"}
None == [ok |-> FALSE]
Load == /\ Part = 2 /\ Len(steps) < MaxSteps
        /\ \E s \in (IF Gen THEN {RandomElement({x \in Shapes : Len(steps) >= 0})} ELSE Shapes), n \in 1..MaxC, path \in Paths, salt \in (IF Gen THEN {RandomElement({x \in 0..22 : Len(steps) >= 0})} ELSE {0, 3}) :
             \E cs \in (IF Gen THEN {[c \in 1..n |-> RandomElement({x \in Currents : c > 0 /\ Len(steps) >= 0})]} ELSE [1..n -> Currents]) :
                LET t == [ok |-> TRUE, s |-> s, circuits |-> n, currents |-> cs, salt |-> salt, path |-> path]
                IN /\ table' = t
                   /\ steps' = Append(steps, [op |-> "load", t |-> t, defect |-> "none"])
        /\ UNCHANGED shape
BadLoad == /\ Part = 2 /\ Len(steps) < MaxSteps
           /\ \E path \in {"memory", "file"} : \E d \in (IF path = "memory" THEN MemDefects ELSE FileDefects) :
                \E s \in (IF Gen THEN {RandomElement({x \in Shapes : Len(steps) >= 0})} ELSE {[p |-> 1, z |-> 2, r |-> 2]}) :
                LET t == [ok |-> FALSE, s |-> s, circuits |-> 2, currents |-> <<1, 2>>, salt |-> 1, path |-> path]
                IN steps' = Append(steps, [op |-> "load", t |-> t, defect |-> d])
           /\ table' = None /\ UNCHANGED shape
(* all planes at one position (in half cells) *)
Query == /\ Part = 2 /\ Len(steps) < MaxSteps /\ table.ok
         /\ \E ii \in (IF Gen THEN {RandomElement({x \in -1..(2 * table.s.r - 1) : Len(steps) >= 0}), RandomElement({x \in -1..(2 * table.s.r - 1) : Len(steps) >= 1})} ELSE -1..(2 * table.s.r - 1)),
              jj \in (IF Gen THEN {RandomElement({x \in -1..(2 * table.s.z - 1) : Len(steps) >= 0})} ELSE -1..(2 * table.s.z - 1)) :
              LET row(comp) == [k \in 1..table.s.p |-> At4(table, comp, k - 1, jj, ii)]
              IN steps' = Append(steps, [op |-> "query", ii |-> ii, jj |-> jj, br |-> row(1), bp |-> row(2), bz |-> row(3)])
         /\ UNCHANGED <<shape, table>>

Init == /\ shape \in (IF Part = 1 THEN Shapes ELSE {[p |-> 1, z |-> 2, r |-> 2]}) /\ table = None /\ steps = <<>>
Next == Load \/ BadLoad \/ Query
Spec == Init /\ [][Next]_vars
GNext == \/ Load /\ (steps = <<>> \/ RandomElement(1..(4 + 0 * Len(steps))) = 1)
         \/ BadLoad /\ RandomElement(1..(40 + 0 * Len(steps))) = 1
         \/ Query
GSpec == Init /\ [][GNext]_vars

(* ------------------------------------------------------------- properties *)
(* linear in the currents, entry by entry *)
Linear == (Part = 2 /\ table.ok) =>
  \A l \in 0..(Size(table.s) - 1), comp \in 1..3 :
    LET two == [table EXCEPT !.currents = [c \in 1..table.circuits |-> 2 * table.currents[c] + (IF c = 1 THEN 1 ELSE 0)]]
    IN Field(two, comp, l) = 2 * Field(table, comp, l) + Entry(table, 1, comp, l)
(* at grid points the interpolated field is the tabulated one; a half point lies between its neighbours *)
GridExact == (Part = 2 /\ table.ok) =>
  \A k \in 0..(table.s.p - 1), j \in 0..(table.s.z - 1), i \in 0..(table.s.r - 1) :
     At4(table, 1, k, 2 * j, 2 * i) = 4 * Field(table, 1, Lin(table.s, k, j, i))
(* the way a table came in does not matter *)
PathFree == (Part = 2 /\ table.ok) => \A path \in Paths : At4([table EXCEPT !.path = path], 2, 0, 1, 1) = At4(table, 2, 0, 1, 1)
RefusedHoldsNothing == \A q \in 1..Len(steps) : steps[q].op = "query" => q > 1 /\ (steps[q - 1].op = "load" => steps[q - 1].defect = "none")

Emit == (Gen /\ Part = 2 /\ Len(steps) = MaxSteps) => PrintT("@@" \o ToJson(steps))
(* one line per shape and symmetry: the stored index, its source and its sign *)
EmitTables == (Gen /\ Part = 1) =>
   \A sym \in BOOLEAN : PrintT("@@" \o ToJson([s |-> shape, sym |-> sym, ok |-> (sym => CanMirror(shape)),
        src |-> IF sym /\ ~CanMirror(shape) THEN <<>> ELSE [l \in 1..Size(shape) |-> Src(shape, sym, l - 1)],
        sgn |-> IF sym /\ ~CanMirror(shape) THEN <<>> ELSE [l \in 1..Size(shape) |-> Sgn(shape, sym, l - 1)]]))
=============================================================================
