------------------------------- MODULE Inputs -------------------------------
(* How an input gets from a user to the solver, and who refuses it.

   An attempt is an abstract input (a record of field values, real numbers in
   thousandths) handed over through one of the entry points

     file    a JSON input file, read with VmecInput.from_file, then vmecpp.run
     object  a VmecInput built from the field values, then vmecpp.run
     struct  the solver's own input structure, then the compiled run function
     model   the solver's own input structure, then a step-wise model object

   Each entry point is a pipeline of stages (open, parse, types, sizes,
   consistency, field table, threads) that either pass the input on or refuse
   it.  `Defects` states declaratively, independent of the pipeline, what is
   wrong with an attempt.  The pipeline must refuse exactly the attempts that
   have a defect, and must do so before the solving stage.

   A session is a sequence of attempts in one process: a refusal leaves no
   trace, so that the next attempt is judged on its own. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Entries, MaxEdits, MaxAttempts, Broken, Printing

Bases == {"sym", "asym", "free", "curr", "multi"}

(* ------------------------------------------------------------------ fields *)
Valid(b) ==
  [ lasym |-> b = "asym", asymset |-> b = "asym",
    nfp |-> 1, mpol |-> 4, ntor |-> 0, ntheta |-> 0, nzeta |-> IF b = "free" THEN 4 ELSE 0,
    ns |-> IF b = "multi" THEN <<3, 5, 7>> ELSE <<5>>,
    ftol |-> IF b = "multi" THEN <<1, 1, 1>> ELSE <<1>>, niter |-> IF b = "multi" THEN <<6, 6, 6>> ELSE <<6>>,
    phiedge |-> 1000, ncurr |-> IF b = "curr" THEN 1 ELSE 0, presscale |-> 1000, gamma |-> 0, spresped |-> 1000, bloat |-> 1000,
    nvacskip |-> IF b = "free" THEN 1 ELSE 0, nstep |-> 10, delt |-> 900, tcon0 |-> 1000,
    lfreeb |-> b = "free", mgrid |-> IF b = "free" THEN "good" ELSE "none", method |-> "nestor", extcur |-> "match",
    style |-> "vmec_8_52", axis |-> "exact", axisof |-> "raxis_c", bdy |-> "exact", bdyof |-> "rbc", aux |-> "match", auxof |-> "am",
    pmass |-> "known", piota |-> "known", pcurr |-> "known",
    threads |-> 1, gridns |-> 5,
    (* how the input is written down *)
    kindof |-> "none", kind |-> "right", text |-> "json", path |-> "file" ]

Vals ==
  [ lasym |-> BOOLEAN, asymset |-> BOOLEAN,
    nfp |-> {-3, -1, 0, 1, 2, 5}, mpol |-> {-1, 0, 1, 2, 3, 5}, ntor |-> {-2, -1, 0, 1, 2},
    ntheta |-> {-7, -1, 0, 1, 8, 13, 16}, nzeta |-> {-4, -1, 0, 1, 4, 6},
    ns |-> {<<>>, <<-5>>, <<0>>, <<1>>, <<2>>, <<3>>, <<5>>, <<5, 5>>, <<5, 7>>, <<7, 5>>, <<2, 5>>, <<5, 2>>, <<3, 5, 4>>, <<3, 5, 5, 9>>, <<5, 11, 7>>, <<5, 5, 5>>, <<4, 6, 8, 7>>, <<5, 3, 7>>, <<3, 5, 2>>},
    ftol |-> {<<>>, <<0>>, <<-1>>, <<1>>, <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<1, 1, 1>>, <<1, 1, 1, 1>>, <<1, 1, 1, -1>>, <<1, 1, -1>>, <<1, -1, 1>>, <<-1, 1, 1>>, <<1, 0, 1>>},
    niter |-> {<<>>, <<0>>, <<-1>>, <<1>>, <<6>>, <<6, 6>>, <<6, 0>>, <<0, 6>>, <<6, 6, 6>>, <<6, 6, 6, 6>>, <<6, 6, -2, 6>>, <<6, 6, 0>>, <<6, 0, 6>>, <<-1, 6, 6>>},
    phiedge |-> {-1000, 0, 1000, 2000}, ncurr |-> {-1, 0, 1, 2, 3}, presscale |-> {-1000, -1, 0, 1000},
    gamma |-> {-1000, 0, 999, 1000, 1001, 1667}, spresped |-> {-500, 0, 1, 500, 1000, 1001, 2000}, bloat |-> {0, 900, 1000, 1100},
    nvacskip |-> {-5, -1, 0, 1, 3}, nstep |-> {-10, -1, 0, 1, 10}, delt |-> {-900, 0, 1, 900, 10000, 10001, 20000},
    tcon0 |-> {-1000, -1, 0, 500, 1000, 1001}, lfreeb |-> BOOLEAN,
    mgrid |-> {"none", "good", "missing", "dir", "junk", "empty", "nofields"}, method |-> {"nestor", "only_coils", "biest", "bogus"},
    extcur |-> {"match", "short", "long", "none"}, style |-> {"vmec_8_52", "parvmec", "bogus"},
    axis |-> {"exact", "short", "long"}, axisof |-> {"raxis_c"}, bdy |-> {"exact", "rows", "cols", "fewer"}, bdyof |-> {"rbc"},
    aux |-> {"none", "match", "moreknots", "morevalues"}, auxof |-> {"am"},
    pmass |-> {"known", "unknown"}, piota |-> {"known", "unknown"}, pcurr |-> {"known", "unknown"},
    threads |-> {-4, -1, 0, 1, 2, 3}, gridns |-> {-3, 0, 1, 2, 3, 5, 6},
    kindof |-> {"none"}, kind |-> {"right"}, text |-> {"json", "empty", "open", "list", "null", "number", "binary", "trunc", "noquote"},
    path |-> {"file", "missing", "dir"} ]

(* the JSON kinds that are wrong for a kind of field *)
IntFields  == {"nfp", "mpol", "ntor", "ntheta", "nzeta", "ncurr", "nvacskip", "nstep"}
RealFields == {"phiedge", "pres_scale", "gamma", "spres_ped", "bloat", "delt", "tcon0", "curtor"}
BoolFields == {"lasym", "lfreeb", "lforbal"}
StrFields  == {"mgrid_file", "pmass_type", "piota_type", "pcurr_type", "free_boundary_method"}
VecFields  == {"ns_array", "ftol_array", "niter_array", "am", "ai", "ac", "am_aux_s", "am_aux_f", "raxis_c", "zaxis_s", "extcur", "aphi"}
BdyFields  == {"rbc", "zbs"}
KindFields == IntFields \cup RealFields \cup BoolFields \cup StrFields \cup VecFields \cup BdyFields
WrongKinds(f) ==
  CASE f \in IntFields  -> {"string", "object", "fraction", "huge", "hugenegative", "beyond64"}
    [] f \in RealFields -> {"string", "list", "object"}
    [] f \in BoolFields -> {"string", "list", "object", "fraction"}
    [] f \in StrFields  -> {"number", "list", "object"}
    [] f \in VecFields  -> {"string", "number", "object", "stringlist", "nested"} \cup (IF f \in {"ns_array", "niter_array"} THEN {"hugelist", "fractionlist"} ELSE {})
    [] f \in BdyFields  -> {"number", "string", "stringlist", "badentry"}

ToStruct(e) == e \in {"struct", "model"}

(* An edit that cannot be expressed at an entry point is not offered there. *)
Expressible(e, f) ==
  CASE f \in {"kindof", "kind", "axis", "axisof", "bdy", "bdyof", "aux", "auxof"} -> FALSE          \* edited together, see EditKind and EditSize
    [] f \in {"text", "path"} -> e = "file"
    [] f = "gridns" -> e = "model"
    [] f = "threads" -> e # "model"
    [] OTHER -> TRUE

(* ------------------------------------------------------------- what is wrong *)
Min2(a, b) == IF a < b THEN a ELSE b
Used(i) == [pmass |-> TRUE, piota |-> i.ncurr = 0, pcurr |-> i.ncurr = 1]

Max2(a, b) == IF a > b THEN a ELSE b
(* the number of toroidal grid planes a solve uses: at least what resolves ntor *)
Planes(i) == IF i.ntor = 0 THEN (IF i.nzeta < 1 THEN 1 ELSE i.nzeta) ELSE Max2(i.nzeta, 2 * i.ntor + 4)

Defects(e, i) ==
  (IF i.path # "file" THEN {"path"} ELSE {}) \cup
  (IF i.path = "file" /\ i.text # "json" THEN {"text"} ELSE {}) \cup
  (IF i.kindof # "none" THEN {"kind"} ELSE {}) \cup
  (IF i.nfp < 1 THEN {"nfp"} ELSE {}) \cup
  (IF i.mpol < 2 THEN {"mpol"} ELSE {}) \cup
  (IF i.ntor < 0 THEN {"ntor"} ELSE {}) \cup
  (IF i.ntheta < 0 THEN {"ntheta"} ELSE {}) \cup
  (IF i.nzeta < 0 THEN {"nzeta"} ELSE {}) \cup
  (IF i.ns = <<>> THEN {"nsempty"} ELSE {}) \cup
  (IF \E k \in 1..Len(i.ns) : i.ns[k] < 3 THEN {"nssmall"} ELSE {}) \cup
  (IF \E k \in 1..(Len(i.ns) - 1) : i.ns[k + 1] < i.ns[k] THEN {"nsorder"} ELSE {}) \cup
  (IF Len(i.ftol) < Len(i.ns) \/ (e = "file" /\ Len(i.ftol) # Len(i.ns)) THEN {"ftollen"} ELSE {}) \cup
  (IF Len(i.niter) < Len(i.ns) \/ (e = "file" /\ Len(i.niter) # Len(i.ns)) THEN {"niterlen"} ELSE {}) \cup
  (IF \E k \in 1..Min2(Len(i.ftol), Len(i.ns)) : i.ftol[k] < 0 THEN {"ftol"} ELSE {}) \cup
  (IF \E k \in 1..Min2(Len(i.niter), Len(i.ns)) : i.niter[k] <= 0 THEN {"niter"} ELSE {}) \cup
  (IF i.phiedge = 0 THEN {"phiedge"} ELSE {}) \cup
  (IF i.ncurr \notin {0, 1} THEN {"ncurr"} ELSE {}) \cup
  (IF i.presscale < 0 THEN {"presscale"} ELSE {}) \cup
  (IF i.gamma = 1000 THEN {"gamma"} ELSE {}) \cup
  (IF i.spresped <= 0 \/ i.spresped > 1000 THEN {"spresped"} ELSE {}) \cup
  (IF i.ncurr = 0 /\ i.bloat # 1000 THEN {"bloat"} ELSE {}) \cup
  (IF i.nvacskip < 0 \/ (i.lfreeb /\ i.nvacskip < 1) THEN {"nvacskip"} ELSE {}) \cup
  (IF i.nstep <= 0 THEN {"nstep"} ELSE {}) \cup
  (IF i.delt <= 0 \/ i.delt > 10000 THEN {"delt"} ELSE {}) \cup
  (IF i.tcon0 < 0 \/ i.tcon0 > 1000 THEN {"tcon0"} ELSE {}) \cup
  (IF i.method = "bogus" \/ (i.lfreeb /\ i.method = "biest") THEN {"method"} ELSE {}) \cup
  (IF i.lfreeb /\ i.method = "only_coils" /\ i.presscale # 0 THEN {"onlycoils"} ELSE {}) \cup
  (IF i.style = "bogus" THEN {"style"} ELSE {}) \cup
  (IF (i.axis = "long" /\ (i.asymset \/ i.axisof \in {"raxis_c", "zaxis_s"}) /\ (e # "file" \/ i.lasym \/ i.axisof \in {"raxis_c", "zaxis_s"})) THEN {"axis"} ELSE {}) \cup
  (IF (i.bdy = "cols" /\ (i.asymset \/ i.bdyof \in {"rbc", "zbs"})) THEN {"bdy"} ELSE {}) \cup
  (IF i.aux \in {"moreknots", "morevalues"} THEN {"aux"} ELSE {}) \cup
  (IF i.lasym # i.asymset /\ ~(e = "file" /\ ~i.lasym) THEN {"asymset"} ELSE {}) \cup
  (IF i.lfreeb /\ i.mgrid # "good" THEN {"mgrid"} ELSE {}) \cup
  (IF i.lfreeb /\ i.mgrid = "good" /\ i.extcur # "match" THEN {"extcur"} ELSE {}) \cup
  (IF i.lfreeb /\ i.mgrid = "good" /\ Planes(i) # 4 THEN {"nzetatable"} ELSE {}) \cup
  (IF i.lfreeb /\ i.mgrid = "good" /\ i.nfp # 1 THEN {"nfptable"} ELSE {}) \cup
  (IF i.pmass = "unknown" THEN {"pmass"} ELSE {}) \cup
  (IF i.piota = "unknown" /\ i.ncurr = 0 THEN {"piota"} ELSE {}) \cup
  (IF i.pcurr = "unknown" /\ i.ncurr = 1 THEN {"pcurr"} ELSE {}) \cup
  (IF e # "model" /\ i.threads < 1 THEN {"threads"} ELSE {}) \cup
  (IF e = "model" /\ i.gridns < 3 THEN {"gridns"} ELSE {})

(* ------------------------------------------------------------- the pipeline *)
StageOf(d) ==
  CASE d = "path" -> "open" [] d = "text" -> "parse" [] d \in {"kind"} -> "types"
    [] d \in {"ftollen", "niterlen", "axis", "bdy", "aux", "asymset"} -> "sizes"
    [] d \in {"mgrid", "extcur", "nzetatable", "nfptable"} -> "table"
    [] d \in {"threads", "gridns"} -> "resources"
    [] OTHER -> "consistency"
Stages == <<"open", "parse", "types", "sizes", "consistency", "table", "resources">>

VARIABLES entry, base, inp, budget, edits, stage, verdict, attempts, log
vars == <<entry, base, inp, budget, edits, stage, verdict, attempts, log>>

Reset(e, b) == /\ budget' \in 0..MaxEdits /\ entry' = e /\ base' = b /\ inp' = Valid(b) /\ edits' = 0 /\ stage' = 0 /\ verdict' = "none"
Init == /\ \E e \in Entries : \E b \in Bases : entry = e /\ base = b /\ inp = Valid(b)
        /\ budget \in 0..MaxEdits /\ edits = 0 /\ stage = 0 /\ verdict = "none" /\ attempts = 1 /\ log = <<>>

Edit == /\ stage = 0 /\ edits < budget
        /\ \E f \in DOMAIN Vals : /\ Expressible(entry, f)
                                  /\ \E v \in Vals[f] : v # inp[f] /\ ~(ToStruct(entry) /\ f \in {"method", "style"} /\ ToString(v) = ToString("bogus")) /\ inp' = [inp EXCEPT ![f] = v]
        /\ edits' = edits + 1
        /\ UNCHANGED <<entry, base, budget, stage, verdict, attempts, log>>
EditKind == /\ stage = 0 /\ edits < budget /\ inp.kindof = "none" /\ entry \in {"file", "object"}
            /\ \E f \in KindFields : \E k \in WrongKinds(f) : inp' = [inp EXCEPT !.kindof = f, !.kind = k]
            /\ edits' = edits + 1
            /\ UNCHANGED <<entry, base, budget, stage, verdict, attempts, log>>
(* a grid schedule with tolerances and budgets of the same length *)
EditSchedule == /\ stage = 0 /\ edits < budget
                /\ \E v \in Vals.ns : /\ v # inp.ns
                                      /\ inp' = [inp EXCEPT !.ns = v, !.ftol = [k \in 1..Len(v) |-> 1], !.niter = [k \in 1..Len(v) |-> 6]]
                /\ edits' = edits + 1
                /\ UNCHANGED <<entry, base, budget, stage, verdict, attempts, log>>
(* one of several arrays that belong together gets another size *)
AxisNames == {"raxis_c", "zaxis_s"} \cup (IF inp.asymset THEN {"raxis_s", "zaxis_c"} ELSE {})
BdyNames  == {"rbc", "zbs"} \cup (IF inp.asymset THEN {"rbs", "zbc"} ELSE {})
EditSize == /\ stage = 0 /\ edits < budget
            /\ \/ /\ ~ToStruct(entry)      \* the structure sizes its own arrays
                  /\ inp.axis = "exact"
                  /\ \E f \in AxisNames : \E v \in Vals.axis \ {"exact"} : inp' = [inp EXCEPT !.axis = v, !.axisof = f]
               \/ /\ entry = "object" /\ inp.bdy = "exact"
                  /\ \E f \in BdyNames : \E v \in Vals.bdy \ {"exact"} : inp' = [inp EXCEPT !.bdy = v, !.bdyof = f]
               \/ /\ inp.aux = "match"
                  /\ \E f \in {"am", "ai", "ac"} : \E v \in Vals.aux \ {"match"} : inp' = [inp EXCEPT !.aux = v, !.auxof = f]
            /\ edits' = edits + 1
            /\ UNCHANGED <<entry, base, budget, stage, verdict, attempts, log>>
Submit == /\ stage = 0 /\ edits = budget /\ stage' = 1 /\ UNCHANGED <<entry, base, inp, budget, edits, verdict, attempts, log>>

Skipped(s) == Broken = s
Refusal(s) == {d \in Defects(entry, inp) : StageOf(d) = s}
Step == /\ stage \in 1..Len(Stages) /\ verdict = "none"
        /\ IF Refusal(Stages[stage]) # {} /\ ~Skipped(Stages[stage])
             THEN verdict' = "refused" /\ stage' = Len(Stages) + 2
             ELSE verdict' = verdict /\ stage' = stage + 1
        /\ UNCHANGED <<entry, base, inp, budget, edits, attempts, log>>
Solve == /\ stage = Len(Stages) + 1 /\ verdict' = "solved" /\ stage' = Len(Stages) + 2
         /\ UNCHANGED <<entry, base, inp, budget, edits, attempts, log>>
Record == [entry |-> entry, base |-> base, inp |-> inp, edits |-> edits, verdict |-> verdict, defects |-> Defects(entry, inp)]
(* what the machine decided is reported, and the session goes on *)
Finish == /\ stage = Len(Stages) + 2
          /\ stage' = Len(Stages) + 3
          /\ log' = (IF MaxAttempts = 1 THEN log ELSE Append(log, Record))
          /\ (Printing /\ MaxAttempts = 1) => PrintT("@@" \o ToJson(<<Record>>))
          /\ UNCHANGED <<entry, base, inp, budget, edits, verdict, attempts>>
Next2 == /\ stage = Len(Stages) + 3 /\ attempts < MaxAttempts
         /\ attempts' = attempts + 1 /\ log' = log
         /\ \E e \in Entries : \E b \in Bases : Reset(e, b)
Done == /\ stage = Len(Stages) + 3 /\ attempts = MaxAttempts
        /\ stage' = Len(Stages) + 4
        /\ (Printing /\ MaxAttempts > 1) => PrintT("@@" \o ToJson(log))
        /\ UNCHANGED <<entry, base, inp, budget, edits, verdict, attempts, log>>

Next == Edit \/ EditKind \/ EditSize \/ EditSchedule \/ Submit \/ Step \/ Solve \/ Finish \/ Next2 \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Submit \/ Step \/ Solve \/ Finish)

(* --------------------------------------------------------------- properties *)
NeverSilent   == verdict = "solved"  => Defects(entry, inp) = {}
NeverNeedless == verdict = "refused" => Defects(entry, inp) # {}
BasesValid    == edits = 0 => Defects(entry, inp) = {}
(* whoever hands over the structure directly gets the same judgement as through an object,
   up to the forms an object completes *)
SameJudgement == (entry = "object" /\ inp.axis # "short" /\ inp.bdy \notin {"fewer", "rows"} /\ inp.kindof = "none")
                 => Defects("object", inp) = Defects("struct", inp)
(* a file is never accepted when the object with the same content is refused *)
FileStricter  == (entry = "file" /\ Defects("file", inp) = {} /\ (inp.lasym \/ ~inp.asymset)) => Defects("object", inp) = {}
TypeOK == stage \in 0..(Len(Stages) + 4) /\ verdict \in {"none", "refused", "solved"}
Answered == [](stage > 0 => <>(verdict # "none"))
=============================================================================
