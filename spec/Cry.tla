-------------------------------- MODULE Cry --------------------------------
(***************************************************************************)
(* A set of solver files (one per zone) as a distributed representation of *)
(* one surface.                                                            *)
(*   faces : the surface, sequence of [g, t, c]  (global id, corner points,*)
(*           token of the solver variables)                                *)
(*   files : sequence of the parsed files, in the order of their numbers:  *)
(*    [idx (file number), mpi, title, n, e, x, f (announced counts),       *)
(*     pts, gids, data, fn, fe, en (0-based local numbers),                *)
(*     nb, borders : sequence of [z, es]]                                  *)
(***************************************************************************)
EXTENDS Mesh

Triple(F, i) == <<F.pts[F.fn[i][1] + 1], F.pts[F.fn[i][2] + 1], F.pts[F.fn[i][3] + 1]>>
EdgePts(F, j) == {F.pts[F.en[j + 1][1] + 1], F.pts[F.en[j + 1][2] + 1]}
LocOk(s, n) == \A i \in DOMAIN s : RangeOf(s[i]) \subseteq 0..(n - 1)

\* --- one file on its own ----------------------------------------------------------------------
FileNumbering(F) ==
    (IF F.n = Len(F.pts) /\ F.e = Len(F.en) /\ F.f = Len(F.gids) /\ F.f = Len(F.fn) /\ F.f = Len(F.fe) /\ F.f = Len(F.data)
     THEN {} ELSE {"Counts"}) \cup
    (IF /\ \A i \in DOMAIN F.fn : Len(F.fn[i]) = 3 /\ Injective(F.fn[i])
        /\ \A i \in DOMAIN F.fe : Len(F.fe[i]) = 3 /\ Injective(F.fe[i])
        /\ \A i \in DOMAIN F.en : Len(F.en[i]) = 2 /\ Injective(F.en[i])
        /\ LocOk(F.fn, F.n) /\ LocOk(F.fe, F.e) /\ LocOk(F.en, F.n)
     THEN {} ELSE {"LocalNumbers"})

FileContent(F, faces) ==
    LET byId(g) == CHOOSE i \in DOMAIN faces : faces[i].g = g
        ids == {faces[i].g : i \in DOMAIN faces} IN
    (IF Injective(F.gids) /\ RangeOf(F.gids) \subseteq ids THEN {} ELSE {"GlobalIds"}) \cup
    (IF \A i \in DOMAIN F.gids : F.gids[i] \in ids => Canon(Triple(F, i)) = Canon(faces[byId(F.gids[i])].t) THEN {} ELSE {"FaceNodes"}) \cup
    (IF \A i \in DOMAIN F.gids : F.gids[i] \in ids => F.data[i] = faces[byId(F.gids[i])].c THEN {} ELSE {"FaceData"}) \cup
    (IF \A i \in DOMAIN F.fn : {EdgePts(F, F.fe[i][k]) : k \in 1..3} =
            LET t == Triple(F, i) IN {{t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]}} THEN {} ELSE {"FaceEdges"}) \cup
    \* only what the faces use, and everything once
    (IF UNION {RangeOf(F.fn[i]) : i \in DOMAIN F.fn} = 0..(F.n - 1) /\ Injective(F.pts) THEN {} ELSE {"NodesOfZone"}) \cup
    (IF UNION {RangeOf(F.fe[i]) : i \in DOMAIN F.fe} = 0..(F.e - 1)
        /\ Cardinality({EdgePts(F, j) : j \in 0..(F.e - 1)}) = F.e THEN {} ELSE {"EdgesOfZone"})

\* --- the set of files ---------------------------------------------------------------------------
SetBad(faces, files, names) ==
    (IF [i \in DOMAIN files |-> files[i].idx] = [i \in DOMAIN files |-> i - 1] THEN {} ELSE {"FileNumbers"}) \cup
    (IF \A i \in DOMAIN files : files[i].mpi = files[i].idx THEN {} ELSE {"MpiNumber"}) \cup
    (IF names = <<>> \/ names = [i \in DOMAIN files |-> files[i].title] THEN {} ELSE {"ZoneNames"}) \cup
    (IF SumSeq([i \in DOMAIN files |-> Len(files[i].gids)]) = Len(faces)
        /\ UNION {RangeOf(files[i].gids) : i \in DOMAIN files} = {faces[i].g : i \in DOMAIN faces} THEN {} ELSE {"FacesOnce"})

ContentBad(faces, files, names) ==
    LET b == UNION {FileNumbering(files[i]) : i \in DOMAIN files} IN
    IF b # {} THEN b ELSE SetBad(faces, files, names) \cup UNION {FileContent(files[i], faces) : i \in DOMAIN files}

(***************************************************************************)
(* MPI borders: zones i and j share exactly the edges with one face in     *)
(* each; both files list them in the same order.                           *)
(***************************************************************************)
SidesIn(F) == {EdgePts(F, j) : j \in 0..(F.e - 1)}
SharedEdges(files, i, j) == SidesIn(files[i]) \cap SidesIn(files[j])
BorderOf(F, z) == LET k == CHOOSE k \in DOMAIN F.borders : F.borders[k].z = z IN F.borders[k].es
HasBorder(F, z) == \E k \in DOMAIN F.borders : F.borders[k].z = z
BorderPts(F, es) == [k \in DOMAIN es |-> EdgePts(F, es[k])]
BordersBad(files) ==
    LET b == UNION {FileNumbering(files[i]) : i \in DOMAIN files} IN
    IF b # {} THEN b ELSE
    (IF \A i \in DOMAIN files : /\ files[i].nb = Len(files[i].borders)
                                /\ Injective([k \in DOMAIN files[i].borders |-> files[i].borders[k].z])
                                /\ \A k \in DOMAIN files[i].borders :
                                      /\ files[i].borders[k].z \in 0..(Len(files) - 1) \ {i - 1}
                                      /\ files[i].borders[k].es # <<>>
                                      /\ Injective(files[i].borders[k].es)
                                      /\ RangeOf(files[i].borders[k].es) \subseteq 0..(files[i].e - 1)
     THEN LET ok(i) == \A j \in DOMAIN files : j = i \/
                         (HasBorder(files[i], j - 1) <=> SharedEdges(files, i, j) # {})
              sets(i) == \A j \in DOMAIN files : j = i \/ ~ HasBorder(files[i], j - 1) \/
                         RangeOf(BorderPts(files[i], BorderOf(files[i], j - 1))) = SharedEdges(files, i, j)
              order(i) == \A j \in DOMAIN files : j = i \/ ~ HasBorder(files[i], j - 1) \/ ~ HasBorder(files[j], i - 1) \/
                         BorderPts(files[i], BorderOf(files[i], j - 1)) = BorderPts(files[j], BorderOf(files[j], i - 1))
              sums(i) == files[i].x = SumSeq([k \in DOMAIN files[i].borders |-> Len(files[i].borders[k].es)])
          IN (IF \A i \in DOMAIN files : ok(i) THEN {} ELSE {"Neighbours"}) \cup
             (IF \A i \in DOMAIN files : sets(i) THEN {} ELSE {"BorderEdges"}) \cup
             (IF \A i \in DOMAIN files : order(i) THEN {} ELSE {"BorderOrder"}) \cup
             (IF \A i \in DOMAIN files : sums(i) THEN {} ELSE {"CrossCount"})
     ELSE {"BorderLists"})
=============================================================================
