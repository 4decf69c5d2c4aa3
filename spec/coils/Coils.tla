------------------------------- MODULE Coils -------------------------------
(* Reading a MAKEGRID coils file line by line, and what may be done with the
   configuration afterwards.

   The file is a sequence of abstract lines.  Outside the filament section
   anything but "periods" and "begin filament" is ignored.  Inside it there are
   point lines (x y z w), closing lines (x y z w circuit name), "mirror" lines
   and the "end" line; everything else is malformed.  Points are numbered in
   file order: point p stands for the coordinates written on its line.

   Windings and currents are rational numbers <<num, den>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, MaxOps, Windings, Ids, Gen, Broken

(* sets a configuration file cannot spell *)
WSmall == {2, -3}
WLarge == {1, -1, 16, -96}
IdsSmall == {1, 4}
IdsLarge == {1, 2, 7, 0, -3}

VARIABLES mode, lines, np, open, circuits, ops, shift, periods, rest
vars == <<mode, lines, np, open, circuits, ops, shift, periods, rest>>
(* rest: what would complete the file after the line that makes it malformed, so that this line is its only defect *)

Good(k) == [kind |-> k]
HeadLines == {"periods", "comment", "blank"}
BadInside == {"blank", "comment", "five", "seven", "three", "badx", "bady", "badz", "badw", "dexponent", "trailing", "badid", "fractionid", "mirrored"}

Init == /\ mode = "head" /\ lines = <<>> /\ np = 0 /\ open = <<>> /\ circuits = <<>> /\ ops = <<>> /\ shift = 0 /\ periods = 0 /\ rest = ""

Room == Len(lines) < MaxLines
Put(l) == lines' = Append(lines, l)

HeadLine == /\ mode = "head" /\ Room
        /\ \E k \in HeadLines : Put([kind |-> k, w |-> 0, id |-> 0]) /\ periods' = (IF k = "periods" THEN Len(lines) + 1 ELSE periods)
        /\ UNCHANGED <<mode, np, open, circuits, ops, shift, rest>>
BadHead == /\ mode = "head" /\ Room
           /\ \E k \in {"periodsnone", "periodsword", "periodstwo", "periodsfraction"} : Put([kind |-> k, w |-> 0, id |-> 0])
           /\ mode' = "refused" /\ rest' = "section" /\ UNCHANGED <<np, open, circuits, ops, shift, periods>>
Begin == /\ mode = "head" /\ Room /\ Put([kind |-> "begin", w |-> 0, id |-> 0]) /\ mode' = "in"
         /\ UNCHANGED <<np, open, circuits, ops, shift, periods, rest>>
Point == /\ mode = "in" /\ Room
         /\ \E w \in Windings : /\ (IF open = <<>> THEN TRUE ELSE open[1].w = w)
                                /\ Put([kind |-> "point", w |-> w, id |-> 0]) /\ open' = Append(open, [p |-> np + 1, w |-> w])
         /\ np' = np + 1 /\ UNCHANGED <<mode, circuits, ops, shift, periods, rest>>
(* a point with another number of windings: noticed when the filament is closed, unless it is the closing point itself *)
OddPoint == /\ mode = "in" /\ Room /\ open # <<>>
            /\ \E w \in Windings : w # open[1].w /\ Put([kind |-> "point", w |-> w, id |-> 0]) /\ open' = Append(open, [p |-> np + 1, w |-> w])
            /\ np' = np + 1 /\ UNCHANGED <<mode, circuits, ops, shift, periods, rest>>
Consistent == \A k \in 1..Len(open) : open[k].w = open[1].w
IndexOf(id) == IF \E k \in 1..Len(circuits) : circuits[k].id = id THEN CHOOSE k \in 1..Len(circuits) : circuits[k].id = id ELSE 0
AddCoil(id, coil) == IF IndexOf(id) = 0 THEN Append(circuits, [id |-> id, cur |-> <<1, 1>>, coils |-> <<coil>>])
                     ELSE [circuits EXCEPT ![IndexOf(id)].coils = IF Broken = "front" THEN <<coil>> \o @ ELSE Append(@, coil)]
Close == /\ mode = "in" /\ Room
         /\ \E id \in Ids, w \in Windings \cup {0} :
              /\ (open = <<>> => w # 0)
              /\ Put([kind |-> "close", w |-> w, id |-> id])
              /\ LET pts == Append([k \in 1..Len(open) |-> open[k].p], np + 1)
                     wd == IF open = <<>> THEN w ELSE open[1].w
                 IN IF Consistent THEN mode' = "in" /\ rest' = "" /\ circuits' = AddCoil(id, [line |-> Len(lines) + 1, w |-> <<wd, 1>>, pts |-> pts])
                                  ELSE mode' = "refused" /\ rest' = "end" /\ circuits' = <<>>
         /\ np' = np + 1 /\ open' = <<>> /\ UNCHANGED <<ops, shift, periods>>
Mirror == /\ mode = "in" /\ Room /\ \E k \in {"mirrornil", "mirrornul"} : Put([kind |-> k, w |-> 0, id |-> 0])
          /\ UNCHANGED <<mode, np, open, circuits, ops, shift, periods, rest>>
Bad == /\ mode = "in" /\ Room /\ \E k \in BadInside : Put([kind |-> k, w |-> 1, id |-> 0])
       /\ mode' = "refused" /\ circuits' = <<>> /\ rest' = (IF open = <<>> THEN "end" ELSE "close") /\ UNCHANGED <<np, open, ops, shift, periods>>
End == /\ mode = "in" /\ Room /\ Put([kind |-> "end", w |-> 0, id |-> 0])
       /\ IF open = <<>> THEN mode' = "tail" /\ UNCHANGED circuits ELSE mode' = "refused" /\ circuits' = <<>>
       /\ UNCHANGED <<np, open, ops, shift, periods, rest>>
Tail2 == /\ mode = "tail" /\ Room /\ \E k \in {"comment", "blank"} : Put([kind |-> k, w |-> 0, id |-> 0])
         /\ UNCHANGED <<mode, np, open, circuits, ops, shift, periods, rest>>
(* the file may stop anywhere *)
Stop == /\ mode \in {"head", "in", "tail"}
        /\ mode' = (IF mode = "tail" THEN "read" ELSE "refused")
        /\ circuits' = (IF mode = "tail" THEN circuits ELSE <<>>)
        /\ UNCHANGED <<lines, np, open, ops, shift, periods, rest>>

(* ---------------------------------------------------- working with the configuration *)
CanOp == mode = "read" /\ Len(ops) < MaxOps
State(cs, sh) == [currents |-> [k \in 1..Len(cs) |-> cs[k].cur], windings |-> [k \in 1..Len(cs) |-> [j \in 1..Len(cs[k].coils) |-> cs[k].coils[j].w]], shift |-> sh]
Mul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
Div(a, b) == IF b[1] < 0 THEN <<-(a[1] * b[2]), -(a[2] * b[1])>> ELSE <<a[1] * b[2], a[2] * b[1]>>
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
SetCurrents == /\ CanOp
               /\ \E v \in {3, 7} : /\ circuits' = [k \in 1..Len(circuits) |-> [circuits[k] EXCEPT !.cur = <<v + k, 1>>]]
                                    /\ ops' = Append(ops, [op |-> "set", v |-> v, ok |-> TRUE, after |-> State(circuits', shift)])
               /\ UNCHANGED <<mode, lines, np, open, shift, periods, rest>>
SetWrong == /\ CanOp /\ circuits # <<>>
            /\ \E v \in {-1, 1} : ops' = Append(ops, [op |-> "setwrong", v |-> v, ok |-> FALSE, after |-> State(circuits, shift)])
            /\ UNCHANGED <<mode, lines, np, open, circuits, shift, periods, rest>>
NormCoils(c) == [j \in 1..Len(c.coils) |-> [c.coils[j] EXCEPT !.w = IF Eq(@, c.coils[1].w) THEN <<1, 1>> ELSE Div(@, c.coils[1].w)]]
NormCircuit(c) == [c EXCEPT !.cur = Mul(@, c.coils[1].w), !.coils = NormCoils(c)]
Normalize == /\ CanOp /\ (\A o \in 1..Len(ops) : ops[o].op # "normalize" \/ \A q \in 1..Len(ops) : q > o => ops[q].op # "normalize")
             /\ Cardinality({o \in 1..Len(ops) : ops[o].op = "normalize"}) < 2
             /\ circuits' = [k \in 1..Len(circuits) |-> NormCircuit(circuits[k])]
             /\ ops' = Append(ops, [op |-> "normalize", v |-> 0, ok |-> TRUE, after |-> State(circuits', shift)])
             /\ UNCHANGED <<mode, lines, np, open, shift, periods, rest>>
Move == /\ CanOp
        /\ \E v \in {-1, 2} : /\ shift' = shift + v
                              /\ ops' = Append(ops, [op |-> "move", v |-> v, ok |-> TRUE, after |-> State(circuits, shift')])
        /\ UNCHANGED <<mode, lines, np, open, circuits, periods, rest>>

Finished == mode = "refused" \/ (mode = "read" /\ Len(ops) = MaxOps)
Out == [lines |-> lines, rest |-> rest, mode |-> mode, periods |-> periods, ops |-> ops,
        circuits |-> [k \in 1..Len(circuits) |-> [id |-> circuits[k].id, coils |-> [j \in 1..Len(circuits[k].coils) |-> [line |-> circuits[k].coils[j].line, pts |-> circuits[k].coils[j].pts]]]]]
Emit == (Gen /\ Finished) => PrintT("@@" \o ToJson(Out))

Next == HeadLine \/ BadHead \/ Begin \/ Point \/ OddPoint \/ Close \/ Mirror \/ Bad \/ End \/ Tail2 \/ Stop \/ SetCurrents \/ SetWrong \/ Normalize \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Stop)

(* Generation: mostly well-formed files *)
R(n) == RandomElement(1..(n + 0 * Len(lines)))
GNext == \/ HeadLine /\ R(3) = 1 /\ Len(lines) < 3
         \/ BadHead /\ R(60) = 1
         \/ Begin \/ Point \/ Close
         \/ OddPoint /\ R(12) = 1
         \/ Mirror /\ R(4) = 1
         \/ Bad /\ R(60) = 1
         \/ End /\ (open = <<>> \/ R(25) = 1) /\ (Len(lines) > 6 \/ R(6) = 1)
         \/ Tail2 /\ R(3) = 1
         \/ Stop /\ (mode = "tail" \/ R(40) = 1 \/ Len(lines) = MaxLines)
         \/ SetCurrents \/ SetWrong \/ Normalize \/ Move
GSpec == Init /\ [][GNext]_vars

(* ------------------------------------------------------------------ properties *)
CoilSet == UNION {{<<k, j>> : j \in 1..Len(circuits[k].coils)} : k \in 1..Len(circuits)}
CoilAt(c) == circuits[c[1]].coils[c[2]]
(* every closing line has exactly one coil, in the circuit it names *)
EveryCoilOnce == mode \in {"in", "tail", "read"} =>
   /\ \A l \in 1..Len(lines) : lines[l].kind = "close" => Cardinality({c \in CoilSet : CoilAt(c).line = l}) = 1
   /\ \A c \in CoilSet : lines[CoilAt(c).line].kind = "close" /\ lines[CoilAt(c).line].id = circuits[c[1]].id
(* every point line belongs to exactly one coil or to the filament being read *)
EveryPointOnce == mode \in {"in", "tail", "read"} =>
   \A p \in 1..np : Cardinality({c \in CoilSet : \E q \in 1..Len(CoilAt(c).pts) : CoilAt(c).pts[q] = p})
                    + Cardinality({q \in 1..Len(open) : open[q].p = p}) = 1
FileOrder == \A k \in 1..Len(circuits) : \A a, b \in 1..Len(circuits[k].coils) : a < b => circuits[k].coils[a].line < circuits[k].coils[b].line
OneCircuitPerId == \A a, b \in 1..Len(circuits) : circuits[a].id = circuits[b].id => a = b
NothingKeptOnRefusal == mode = "refused" => circuits = <<>>
ReadOnlyIfEnded == mode = "read" => \E l \in 1..Len(lines) : lines[l].kind = "end"
(* the ampere-turns of every coil survive the normalisation *)
AmpereTurns == [][ops' # ops /\ ops'[Len(ops')].op = "normalize" =>
                    \A c \in CoilSet : Eq(Mul(circuits[c[1]].cur, CoilAt(c).w), Mul(circuits'[c[1]].cur, circuits'[c[1]].coils[c[2]].w))]_vars
Terminates == <>(mode \in {"refused", "read"})
=============================================================================
