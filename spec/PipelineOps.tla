---------------------------- MODULE PipelineOps ----------------------------
(***************************************************************************)
(* The tools of the calculation cycle as functions on a file system:       *)
(*   fs : <<directory, name>> -> content                                   *)
(* Contents:                                                               *)
(*   [k |-> "grid", title, zones]   zones[i] = [name, faces],              *)
(*                                  faces[j] = [t (corner points), d]      *)
(*                                  d : variable -> value token            *)
(*   [k |-> "cry", rows]            rows[i] = [g (global id), t, d]        *)
(*   [k |-> "txt", rows]            rows[i] = [g, d]                       *)
(*   [k |-> "csv", head, rows]      rows of integers                       *)
(*   [k |-> "other"]                                                       *)
(***************************************************************************)
EXTENDS Names, FiniteSets

Ran(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

Other == [k |-> "other"]
In(fs, dir) == {p \in DOMAIN fs : p[1] = dir}
Update(fs, new) == [p \in DOMAIN fs \cup DOMAIN new |-> IF p \in DOMAIN new THEN new[p] ELSE fs[p]]
Only(p, c) == [q \in {p} |-> c]
None == [q \in {} |-> Other]

\* Global identifier of a face: its position in the file, from 0.
GidOf(G, k, j) == Total([q \in 1..(k - 1) |-> Len(G.zones[q].faces)]) + j - 1
FaceCount(G) == Total([q \in DOMAIN G.zones |-> Len(G.zones[q].faces)])
FaceOfGid(G, g) == LET p == CHOOSE p \in UNION {{<<k, j>> : j \in DOMAIN G.zones[k].faces} : k \in DOMAIN G.zones} : GidOf(G, p[1], p[2]) = g
                   IN G.zones[p[1]].faces[p[2]]

(***************************************************************************)
(* merge                                                                   *)
(***************************************************************************)
Results(fs, src, stem) == {p \in In(fs, src) : fs[p].k = "txt" /\ IsOf(p[2], stem, "txt")}
Rows(fs, ps) == UNION {Ran(fs[p].rows) : p \in ps}
Merged(G, rows) ==
    [G EXCEPT !.zones = [k \in DOMAIN G.zones |-> [G.zones[k] EXCEPT !.faces =
        [j \in DOMAIN G.zones[k].faces |->
            LET f == G.zones[k].faces[j]
                mine == {r \in rows : r.g = GidOf(G, k, j)} IN
            IF mine = {} THEN f ELSE [f EXCEPT !.d = (CHOOSE r \in mine : TRUE).d]]]]]

CsvHead == "time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es"
RECURSIVE SumTables(_)
SumTables(ts) ==     \* non empty set of tables with the same time column
    LET t == CHOOSE t \in ts : TRUE IN
    IF Cardinality(ts) = 1 THEN t.rows
    ELSE LET rest == SumTables(ts \ {t}) IN
         [i \in DOMAIN t.rows |-> [j \in DOMAIN t.rows[i] |-> IF j = 1 THEN t.rows[i][1] ELSE t.rows[i][j] + rest[i][j]]]
CsvIn(fs, src) == {p \in In(fs, src) : fs[p].k = "csv"}

\* new files of a merge (csvdir : the directory above dst)
MergeFiles(fs, grid, src, dst, csvdir) ==
    LET stem == Stem(NoExt(grid[2]))
        rs == Results(fs, src, stem)
        tss == {TsOfFile(p[2]) : p \in rs}
        name(ts) == <<dst, MergedName(stem, ts)>>
        csvs == CsvIn(fs, src)
        grids == [q \in {name(ts) : ts \in tss} |->
                    LET ts == CHOOSE t \in tss : name(t) = q IN
                    Merged(fs[grid], Rows(fs, {p \in rs : TsOfFile(p[2]) = ts}))]
        report == Only(<<dst, "report.txt">>, Other)
        csv == IF csvs = {} THEN None
               ELSE Only(<<csvdir, stem \o ".csv">>,
                         [k |-> "csv", head |-> CsvHead, rows |-> SumTables({[p |-> p, rows |-> fs[p].rows] : p \in csvs})])
    IN Update(Update(grids, report), csv)

(***************************************************************************)
(* split : the calculation files partition the faces, their number and the *)
(* partition are properties of the decomposition.                          *)
(***************************************************************************)
SplitNames(grid, n, dir) ==
    LET stem == Stem(NoExt(grid[2]))  ts == Ts(NoExt(grid[2])) IN
    {<<dir, CryName(stem, i, ts)>> : i \in 0..(n - 1)} \cup {<<dir, "report.txt">>}
\* G : the grid; new : function of the new files
SplitOk(G, names, new, Same(_, _, _)) ==
    /\ DOMAIN new = names
    /\ LET crys == {p \in names : p[2] # "report.txt"} IN
       /\ \A p \in crys : new[p].k = "cry"
       /\ UNION {{r.g : r \in Ran(new[p].rows)} : p \in crys} = 0..(FaceCount(G) - 1)
       /\ \A p, q \in crys : p # q => {r.g : r \in Ran(new[p].rows)} \cap {r.g : r \in Ran(new[q].rows)} = {}
       /\ \A p \in crys : \A r \in Ran(new[p].rows) : Same(FaceOfGid(G, r.g), r.t, r.d)

(***************************************************************************)
(* remesh of a flat plate with uniform ice: the plate moves along its      *)
(* normal by the height of ice, the height becomes zero.                   *)
(***************************************************************************)
RemeshGrid(G, Shift(_), Zero) ==
    [G EXCEPT !.zones = [k \in DOMAIN G.zones |-> [G.zones[k] EXCEPT !.faces =
        [j \in DOMAIN G.zones[k].faces |->
            LET f == G.zones[k].faces[j] IN [t |-> [i \in 1..3 |-> Shift(f.t[i])], d |-> [f.d EXCEPT !.Hi = Zero]]]]]]
=============================================================================
