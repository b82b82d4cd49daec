-------------------------------- MODULE Sew --------------------------------
(***************************************************************************)
(* The grid object of the converters (gsu_converter.py): nodes are objects *)
(* that zones and faces share, so they can be copied, replaced, dropped.   *)
(* A state is [nodes, zones]: nodes[k] = [p, v, id] (point, six values,    *)
(* number in files), zones[i] = [t, ns, fs]: title, list of nodes, faces   *)
(* [n, v] (three nodes, six values).                                       *)
(***************************************************************************)
EXTENDS Convert

Used(z) == UNION {Rng(z.fs[i].n) : i \in DOMAIN z.fs}
Swap(q, a, b) == [i \in DOMAIN q |-> IF q[i] = a THEN b ELSE q[i]]
Empty == [nodes |-> <<>>, zones |-> <<>>]
Zeros == <<0, 0, 0, 0, 0, 0>>

(***************************************************************************)
(* Editing.                                                                *)
(***************************************************************************)
\* A copy of a node is a new object with the same attributes.
Copied(s, k) == [s EXCEPT !.nodes = Append(@, s.nodes[k])]
Replaced(s, z, a, b) ==
    [s EXCEPT !.zones[z] = [t |-> @.t, ns |-> Swap(@.ns, a, b),
                            fs |-> [i \in DOMAIN @.fs |-> [n |-> Swap(@.fs[i].n, a, b), v |-> @.fs[i].v]]]]
\* The last place of a node in the list counts.
LastAt(q, k) == CHOOSE i \in DOMAIN q : q[i] = k /\ \A j \in DOMAIN q : q[j] = k => j <= i
Restored(s, z) == LET q == s.zones[z].ns IN
    [s EXCEPT !.nodes = [k \in DOMAIN @ |-> IF k \in Rng(q) THEN [@[k] EXCEPT !.id = LastAt(q, k) - 1] ELSE @[k]]]
Dropped(s, z) == LET u == Used(s.zones[z]) IN
    [s EXCEPT !.zones[z] = [t |-> @.t, ns |-> SelectSeq(@.ns, LAMBDA k : k \in u), fs |-> @.fs]]
\* Values of a face: means of the values of its nodes.
Mean(s, f, c) == DivT(s.nodes[f.n[1]].v[c] + s.nodes[f.n[2]].v[c] + s.nodes[f.n[3]].v[c], 3)
ToFaces(s) ==
    [s EXCEPT !.zones = [i \in DOMAIN @ |-> [t |-> @[i].t, ns |-> @[i].ns,
        fs |-> [j \in DOMAIN @[i].fs |-> [n |-> @[i].fs[j].n, v |-> [c \in 1..6 |-> Mean(s, @[i].fs[j], c)]]]]]]

(***************************************************************************)
(* Files.  A file with data of cells: zones [t, pts, rows, links] with     *)
(* eight values of each face (T, Hw, Hi are skipped).  A file with data of *)
(* nodes: zones [t, pts, vals, quads].  Zones are added to those present.  *)
(***************************************************************************)
AddZone(s, t, pts, vals, fs) == LET n == Len(s.nodes) IN
    [nodes |-> s.nodes \o [i \in DOMAIN pts |-> [p |-> pts[i], v |-> vals[i], id |-> i - 1]],
     zones |-> Append(s.zones, [t |-> t, ns |-> [i \in DOMAIN pts |-> n + i],
                                fs |-> [j \in DOMAIN fs |-> [n |-> [c \in 1..3 |-> n + fs[j].n[c]], v |-> fs[j].v]]])]
Imported(s, file) ==
    LET RECURSIVE Go(_, _)
        Go(q, i) == IF i > Len(file) THEN q
                    ELSE LET z == file[i] IN
                         Go(AddZone(q, z.t, z.pts, [k \in DOMAIN z.pts |-> Zeros],
                                    [j \in DOMAIN z.links |-> [n |-> z.links[j], v |-> SubSeq(z.rows[j], 4, 8) \o <<0>>]]), i + 1)
    IN Go(s, 1)
WithNodes(s, file, reversed) ==
    LET RECURSIVE Go(_, _)
        Go(q, i) == IF i > Len(file) THEN q
                    ELSE LET z == file[i]
                             ts == Concat([j \in DOMAIN z.quads |-> QuadTris(z.quads[j], reversed)]) IN
                         Go(AddZone(q, z.t, z.pts, z.vals, [j \in DOMAIN ts |-> [n |-> ts[j], v |-> Zeros]]), i + 1)
    IN Go(s, 1)
Exported(s) ==
    [i \in DOMAIN s.zones |-> LET z == s.zones[i] IN
        [t |-> z.t, pts |-> [k \in DOMAIN z.ns |-> s.nodes[z.ns[k]].p], rows |-> [j \in DOMAIN z.fs |-> z.fs[j].v],
         links |-> [j \in DOMAIN z.fs |-> [c \in 1..3 |-> s.nodes[z.fs[j].n[c]].id + 1]]]]
Info(s) == [i \in DOMAIN s.zones |-> <<Len(s.zones[i].ns), Len(s.zones[i].fs)>>]

(***************************************************************************)
(* What the operations are for.                                            *)
(***************************************************************************)
Corners(s, i) == [j \in DOMAIN s.zones[i].fs |-> [c \in 1..3 |-> s.nodes[s.zones[i].fs[j].n[c]].p]]
FileCorners(z) == [j \in DOMAIN z.links |-> [c \in 1..3 |-> z.pts[z.links[j][c]]]]
\* Numbers of nodes are their places in each zone.
Numbered(s, i) == \A k \in DOMAIN s.zones[i].ns : s.nodes[s.zones[i].ns[k]].id = k - 1
Complete(s, i) == Used(s.zones[i]) \subseteq Rng(s.zones[i].ns)
NoExtras(s, i) == Rng(s.zones[i].ns) \subseteq Used(s.zones[i])

Apply(s, o) ==
    CASE o.op = "import" -> Imported(s, o.file)
      [] o.op = "load" -> WithNodes(s, o.file, o.rev)
      [] o.op = "copy" -> Copied(s, o.a)
      [] o.op = "replace" -> Replaced(s, o.z, o.a, o.b)
      [] o.op = "restore" -> Restored(s, o.z)
      [] o.op = "drop" -> Dropped(s, o.z)
      [] o.op = "tofaces" -> ToFaces(s)
      [] o.op \in {"export", "info"} -> s
=============================================================================
