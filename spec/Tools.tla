------------------------------- MODULE Tools -------------------------------
(***************************************************************************)
(* The tools as steps of a file system: what a request may write, what it  *)
(* has to write, and which requests have to be refused.                    *)
(* A request is a record with field tool; the files it names are those of  *)
(* the world the harness makes (see harness/c32.py).                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Five(i) == (IF i < 10 THEN "0000" ELSE "000") \o ToString(i)
\* Stem and time stamp of grids.
Stem(g) == IF g = "txt" THEN "wing" ELSE g
Stamp(g) == CASE g = "wing" -> "000000000005" [] OTHER -> "000000000000"
Good(g) == g \in {"wing", "plain"}

---------------------------------------------------------------------------
\* split: grid, strategy s of the command line ("" - not given), JSON file j, out
Strategy(r) == IF r.s # "" THEN r.s ELSE IF r.j = "strat3" THEN "n3" ELSE "n1"
Fixed(r) == CASE r.j = "fix1" -> 1 [] r.j = "fix2" -> 2 [] OTHER -> 0
Domains(s) == CASE s = "n1" -> 1 [] s = "n2" -> 2 [] s = "n3" -> 3 [] s = "n5" -> 5
                [] s = "h0" -> 1 [] s = "h1" -> 2 [] s = "h2" -> 4 [] OTHER -> 0
Exact(s) == s \in {"n1", "n2", "n3", "n5"}
SplitWrong(r) ==
    \/ r.out \in {"none", "both"}
    \/ ~Good(r.grid)
    \/ r.j \in {"missing", "broken", "foreign"}
    \/ Domains(Strategy(r)) = 0
    \/ Exact(Strategy(r)) /\ Fixed(r) >= Domains(Strategy(r)) /\ Fixed(r) > 0
SplitZones(r) == IF Exact(Strategy(r)) THEN Domains(Strategy(r)) ELSE Domains(Strategy(r)) + Fixed(r)
SplitDir(r) == IF r.out = "old" THEN "o" ELSE "n/a"
SplitMade(r) ==
    IF r.out = "file" THEN {"o/split.dat"}
    ELSE {SplitDir(r) \o "/report.txt"}
         \cup {SplitDir(r) \o "/" \o Stem(r.grid) \o "_" \o Five(i - 1) \o "_" \o Stamp(r.grid) \o ".cry" : i \in 1..SplitZones(r)}

\* merge: grid, src, dst
MergeDst(r) == IF r.dst = "old" THEN "o" ELSE "n/a"
MergeUp(r) == IF r.dst = "old" THEN "" ELSE "n/"
Tables(r) == r.src \in {"csv", "csvs"}
\* results of the time stamps in the source directory (they are all of the grid wing)
Merged(r, good) == IF r.grid # "wing" \/ r.src = "none" THEN {}
                   ELSE {MergeDst(r) \o "/wing_r_0000000000" \o k \o ".dat" : k \in (IF good THEN {"10"} ELSE {"10", "20"})}
MergeWrong(r) == r.grid \in {"missing"} \/ r.src = "missing" \/ (r.grid = "wing" /\ r.src \in {"stranger", "word"})
MergeMade(r) == Merged(r, FALSE) \cup {MergeDst(r) \o "/report.txt"} \cup (IF Tables(r) THEN {MergeUp(r) \o Stem(r.grid) \o ".csv"} ELSE {})
MergeMay(r) == IF r.src \in {"stranger", "word"} /\ r.grid = "wing" THEN Merged(r, TRUE) ELSE {}

\* remesh: src, j, out, v
RemeshOut(r) == CASE r.out = "old" -> "o/" [] r.out = "new" -> "n/a/" [] OTHER -> IF r.src = "here" THEN "m/" ELSE ""
Loud(r) == r.v = 2 \/ r.j = "loud"
\* stems of grids that are read and those of their results
Steps(r, stem) == IF Loud(r) THEN {RemeshOut(r) \o stem \o "_" \o Five(i) \o ".dat" : i \in {0, 1}} ELSE {}
Ice(r) == {RemeshOut(r) \o "ice_000000000010.dat"} \cup Steps(r, "ice_r_000000000010")
Second(r) == {RemeshOut(r) \o "second_r.dat"} \cup Steps(r, "second_r")
RemeshWrong(r) == r.src \in {"missing", "bad", "no dir", "dir bad", "nothing", "both"} \/ (r.j \in {"missing"})
                  \/ (r.j \in {"broken", "steps"} /\ r.src \in {"grid", "here", "dir"})
RemeshMade(r) == (CASE r.src \in {"grid", "here"} -> Ice(r) [] r.src = "dir" -> Ice(r) \cup Second(r) [] OTHER -> {})
                 \cup (IF r.v = 2 THEN {RemeshOut(r) \o "report.txt"} ELSE {})
RemeshMay(r) == IF r.src = "dir bad" /\ r.j \notin {"missing", "broken", "steps"} THEN Ice(r) ELSE {}

\* drops: grid, air
DropsWrong(r) == ~Good(r.grid) \/ r.air # "air"
DropsMade(r) == {"o/drops.dat", "o/drops.dat.tr.dat"}

\* interpolate: src, dst, res
InterWrong(r) == ~Good(r.src) \/ ~Good(r.dst) \/ r.res = "txt"
InterMade(r) == IF r.res = "dat" THEN {"o/i.dat"} ELSE {IF r.dst = "wing" THEN "g/wing_000000000005_interpolated.dat" ELSE "g/plain_interpolated.dat"}

\* lazurit_add_beta_from_ansys: lazurit, ansys, out ("own" - the file itself)
BetaWrong(r) == r.lazurit \notin {"plain", "own"} \/ ~Good(r.ansys)
BetaMade(r) == IF r.lazurit = "own" /\ r.out = "own" THEN {"l/own.dat"} ELSE {"o/beta.dat"}

\* lazurit_to_crystal: dir
LazWrong(r) == r.dir # "pairs"
LazMade(r) == {"o/laz.dat"}
LazMay(r) == IF r.dir = "mismatch" THEN {"o/laz.dat"} ELSE {}

\* ansys_to_crystal: base
AnsysWrong(r) == r.base # "case"
AnsysMade(r) == {"a/case.dat"}
\* smoothing with intermediate files, in the directory of the process: number n of iterations, files f (0, 1)
SmoothMade(r) == IF r.f = 0 THEN {} ELSE {"NullSpace_smoothing_0" \o (IF i <= 10 THEN "0" ELSE "") \o ToString(i - 1) \o ".dat" : i \in 1..r.n}
Kinds == {"fensap", "drop3d", "adiabatic"}
AnsysAlso == {"a/phase" \o p \o ".case." \o k \o ".dat" : p \in {"1", "2"}, k \in Kinds} \cup {"a/phase3.case.dat", "a/phase4.case.dat"}

---------------------------------------------------------------------------
Wrong(r) == CASE r.tool = "split" -> SplitWrong(r) [] r.tool = "merge" -> MergeWrong(r) [] r.tool = "remesh" -> RemeshWrong(r)
              [] r.tool = "drops" -> DropsWrong(r) [] r.tool = "interpolate" -> InterWrong(r) [] r.tool = "beta" -> BetaWrong(r)
              [] r.tool = "lazurit" -> LazWrong(r) [] r.tool = "smooth" -> FALSE [] OTHER -> AnsysWrong(r)
\* A grid that is not needed may be looked at or not; a file that is no *.dat gives nothing, with or without a word.
Free(r) == \/ r.tool = "merge" /\ r.grid = "bad" /\ ~MergeWrong(r)
           \/ r.tool = "remesh" /\ r.src = "txt" /\ ~RemeshWrong(r)
           \/ r.tool = "remesh" /\ r.src = "dir none" /\ r.j \in {"broken", "steps"}
           \/ r.tool = "merge" /\ r.grid = "plain" /\ r.src \in {"stranger", "word"}
\* What has to be written, if the request is right.
Made(r) == CASE r.tool = "split" -> SplitMade(r) [] r.tool = "merge" -> MergeMade(r) [] r.tool = "remesh" -> RemeshMade(r)
             [] r.tool = "drops" -> DropsMade(r) [] r.tool = "interpolate" -> InterMade(r) [] r.tool = "beta" -> BetaMade(r)
             [] r.tool = "lazurit" -> LazMade(r) [] r.tool = "smooth" -> SmoothMade(r) [] OTHER -> AnsysMade(r)
\* What may be written as well.
Also(r) == IF r.tool = "ansys" THEN AnsysAlso ELSE {}
\* What a refused request may have written.
May(r) == CASE r.tool = "merge" -> MergeMay(r) [] r.tool = "remesh" -> RemeshMay(r) [] r.tool = "lazurit" -> LazMay(r)
            [] r.tool = "drops" /\ ~Wrong(r) -> {} [] OTHER -> {}
=============================================================================
