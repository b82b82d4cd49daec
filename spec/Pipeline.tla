------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Histories of the calculation cycle: split, solve, merge, remesh, with   *)
(* two grids whose names share a prefix and with foreign files.            *)
(* The file system is computed with the operators of PipelineOps on tiny   *)
(* grids; the histories are printed and replayed with the real tools.      *)
(***************************************************************************)
EXTENDS PipelineOps, TLC, Json, Randomization
CONSTANTS MaxLen, Sim
VARIABLES fs, hist, run
vars == <<fs, hist, run>>

Stems == {"wing", "wing_1"}
Tss == {"000000000100", "000000000200", "000000001000"}
\* values are tokens <<what, stem, timestamp, face>>; Hi = 0 before and after the accretion
Face(g) == [t |-> <<g, g + 1, g + 2>>, d |-> [T |-> <<"T", "", ZeroTs, g>>, Hi |-> <<"0">>]]
Tiny(s) == [k |-> "grid", title |-> s,
            zones |-> <<[name |-> "a", faces |-> <<Face(1), Face(2)>>], [name |-> "b", faces |-> <<Face(3)>>]>>]
Init == /\ fs = [p \in {<<"main", s \o ".dat">> : s \in Stems} |-> Tiny(NoExt(p[2]))]
        /\ hist = <<>> /\ run = 0

Some(n, S) == IF ~ Sim \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Do(o, f) == Len(hist) < MaxLen /\ hist' = Append(hist, o) /\ fs' = f /\ run' = run + 1

Count(o) == Cardinality({i \in DOMAIN hist : hist[i].op = o})
NotTwice(o) == IF ~ Sim \/ hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # o
Once(o) == IF ~ Sim THEN TRUE ELSE Count(o) < 1
Grids(dir) == {p \in In(fs, dir) : fs[p].k = "grid"}
CryDirs == {"c0", "c1"}
TxtDirs == {"x0", "x1"}
OutDirs == {"r0", "r1"}

ASplit == NotTwice("split") /\ \E p \in Some(2, Grids("main")) : \E n \in 1..2 : \E d \in Some(1, CryDirs) :
    LET G == fs[p]  new == SplitNames(p, n, d)
        file(q) == IF q[2] = "report.txt" THEN Other
                   ELSE [k |-> "cry", rows |-> <<>>]
        \* calculation files of an earlier split of the same grid are removed first
        gone == {q \in In(fs, d) : IsOf(q[2], Stem(NoExt(p[2])), "cry") /\ TsOfFile(q[2]) = Ts(NoExt(p[2]))}
    IN Do([op |-> "split", g |-> p[2], n |-> n, d |-> d], Update([q \in DOMAIN fs \ gone |-> fs[q]], [q \in new |-> file(q)]))
Crys(d) == {p \in In(fs, d) : fs[p].k = "cry"}
\* a solver run over the calculation files of one stem and timestamp found in a directory
Jobs(d) == {j \in Stems \X (Tss \cup {ZeroTs}) : \E p \in Crys(d) : IsOf(p[2], j[1], "cry") /\ TsOfFile(p[2]) = j[2]}
ASolve == NotTwice("solve") /\ \E d \in CryDirs : \E j \in Jobs(d) : \E x \in Some(1, TxtDirs) : \E ts \in Some(1, (SUBSET (Tss \ {j[2]})) \ {{}}) :
    LET n == Cardinality({p \in Crys(d) : IsOf(p[2], j[1], "cry") /\ TsOfFile(p[2]) = j[2]})
        names == {<<x, TxtName(j[1], i, t)>> : i \in 0..(n - 1), t \in ts}
        \* the last process of a run replaces all earlier results of that timestamp
        gone == {p \in In(fs, x) : fs[p].k = "txt" /\ \E t \in ts : IsOf(p[2], j[1], "txt") /\ TsOfFile(p[2]) = t}
        rows(p) == [g \in 1..3 |-> [g |-> g - 1, d |-> [T |-> <<"T", j[1], TsOfFile(p[2]), g>>, Hi |-> <<"h", j[1], TsOfFile(p[2])>>]]]
        kept == [p \in DOMAIN fs \ gone |-> fs[p]]
    IN Do([op |-> "solve", d |-> d, s |-> j[1], ts |-> j[2], x |-> x, out |-> ts],
          Update(kept, [p \in names |-> [k |-> "txt", rows |-> rows(p)]]))
ANoise == Once("noise") /\ \E x \in Some(1, TxtDirs) : \E s \in Some(1, Stems) : Do([op |-> "noise", x |-> x, s |-> s], fs)
ATable == Once("table") /\ \E x \in Some(1, TxtDirs) : \E n \in 1..2 :
    Do([op |-> "table", x |-> x, n |-> n],
       Update(fs, [p \in {<<x, "balance_" \o D1(i) \o ".csv">> : i \in 1..n} |-> [k |-> "csv", head |-> CsvHead, rows |-> <<<<1, run>>>>]]))
AMerge == NotTwice("merge") /\ \E p \in Some(2, Grids("main")) : \E x \in TxtDirs : \E r \in Some(1, OutDirs) :
    /\ Results(fs, x, Stem(NoExt(p[2]))) # {}
    /\ Do([op |-> "merge", g |-> p[2], x |-> x, r |-> r], Update(fs, MergeFiles(fs, p, x, r, "res")))
View == <<fs, Len(hist)>>
ARemesh == NotTwice("remesh") /\ \E r \in OutDirs :
    /\ Grids(r) # {}
    /\ LET new == [q \in {<<"main", RemeshedName(p[2])>> : p \in Grids(r)} |->
                     RemeshGrid(fs[CHOOSE p \in Grids(r) : <<"main", RemeshedName(p[2])>> = q], LAMBDA t : t, <<"0">>)]
       IN Do([op |-> "remesh", r |-> r], Update(fs, new))
ARemesh1 == \E r \in OutDirs : \E p \in Some(1, Grids(r)) :
    Do([op |-> "remesh1", r |-> r, g |-> p[2]], Update(fs, Only(<<"main", RemeshedName(p[2])>>, RemeshGrid(fs[p], LAMBDA t : t, <<"0">>))))
Next == ASplit \/ ASolve \/ ANoise \/ ATable \/ AMerge \/ ARemesh \/ ARemesh1
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The name of a grid file tells whose values it contains.                 *)
(***************************************************************************)
AllFaces(G) == UNION {Ran(G.zones[k].faces) : k \in DOMAIN G.zones}
StemOf(p) == IF IsMerged(p[2]) THEN First(p[2], Len(p[2]) - 19) ELSE Stem(NoExt(p[2]))
TsOf(p) == Ts(NoExt(p[2]))
NamesTell == \A p \in DOMAIN fs : fs[p].k = "grid" =>
    /\ StemOf(p) \in Stems /\ fs[p].title = StemOf(p)
    /\ TsOf(p) # ZeroTs => \A f \in AllFaces(fs[p]) : f.d.T = <<"T", StemOf(p), TsOf(p), f.t[1]>>
IceGone == \A p \in DOMAIN fs : fs[p].k = "grid" =>
    \A f \in AllFaces(fs[p]) : f.d.Hi = (IF IsMerged(p[2]) THEN <<"h", StemOf(p), TsOf(p)>> ELSE <<"0">>)
GeometryKept == \A p \in DOMAIN fs : fs[p].k = "grid" =>
    [k \in DOMAIN fs[p].zones |-> [j \in DOMAIN fs[p].zones[k].faces |-> fs[p].zones[k].faces[j].t]] = <<<<<<1,2,3>>, <<2,3,4>>>>, <<<<3,4,5>>>>>>
Emit == Len(hist) = MaxLen => PrintT(ToJson([ops |-> hist]))
=============================================================================
