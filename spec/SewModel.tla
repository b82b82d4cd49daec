------------------------------ MODULE SewModel ------------------------------
(***************************************************************************)
(* Histories of editing of small grids.  Sewing a zone (each node replaced *)
(* by the first one at its point, extra nodes dropped, numbers restored)   *)
(* keeps the triangles and gives a file that means them.                   *)
(***************************************************************************)
EXTENDS Sew, Json
CONSTANTS MaxLen, Emitting

Tri == [t |-> "one", pts |-> <<1, 2, 3, 1>>, rows |-> << <<1, 2, 3, 4, 5, 6, 7, 8>>, <<9, 8, 7, 6, 5, 4, 3, 2>> >>,
        links |-> << <<1, 2, 3>>, <<4, 3, 2>> >>]
Two == [t |-> "two", pts |-> <<1, 5, 2, 9>>, rows |-> << <<1, 1, 1, 2, 2, 2, 2, 2>> >>, links |-> << <<1, 2, 3>> >>]
Quad == [t |-> "quad", pts |-> <<3, 4, 5, 6>>, vals |-> [k \in 1..4 |-> [c \in 1..6 |-> 3 * k * c]], quads |-> << <<1, 2, 3, 4>>, <<1, 1, 2, 3>> >>]

VARIABLES s, hist
vars == <<s, hist>>
Do(o) == hist' = Append(hist, o) /\ s' = Apply(s, o)
Init == s = Empty /\ hist = <<>>
Next ==
    /\ Len(hist) < MaxLen
    /\ \/ \E f \in {<<Tri>>, <<Two>>, <<Tri, Two>>} : Len(s.zones) + Len(f) <= 3 /\ Do([op |-> "import", file |-> f])
       \/ \E r \in BOOLEAN : Len(s.zones) < 3 /\ Do([op |-> "load", file |-> <<Quad>>, rev |-> r])
       \/ /\ s.zones # <<>>
          /\ \/ \E z \in DOMAIN s.zones : Do([op |-> "restore", z |-> z]) \/ Do([op |-> "drop", z |-> z])
             \/ \E z \in DOMAIN s.zones : \E a \in Rng(s.zones[z].ns) : \E b \in DOMAIN s.nodes \ {a} :
                  s.nodes[a].p = s.nodes[b].p /\ Do([op |-> "replace", z |-> z, a |-> a, b |-> b])
             \/ Len(s.nodes) < 10 /\ \E a \in Rng(s.zones[1].ns) : Do([op |-> "copy", a |-> a])
             \/ Do([op |-> "tofaces"])
Spec == Init /\ [][Next]_vars
View == s

Whole == \A i \in DOMAIN s.zones : Complete(s, i)
\* Replacing nodes by others at the same point never changes triangles; neither does anything else.
TrianglesKept == [][Len(s.zones) = Len(s'.zones) => \A i \in DOMAIN s.zones : Corners(s, i) = Corners(s', i)]_vars
\* Numbered zones mean their triangles in files.
FileMeans == \A i \in DOMAIN s.zones : Numbered(s, i) => FileCorners(Exported(s)[i]) = Corners(s, i)
RestoreNumbers == \A i \in DOMAIN s.zones : LET r == Restored(s, i) IN
    FileCorners(Exported(r)[i]) = Corners(s, i)
DropClean == \A i \in DOMAIN s.zones : LET d == Dropped(s, i) IN NoExtras(d, i) /\ Complete(d, i) /\ Dropped(d, i) = d
First(q, i, k) == CHOOSE a \in Rng(q.zones[i].ns) : q.nodes[a].p = q.nodes[k].p
Sewn(q, i) ==
    LET RECURSIVE Go(_, _)
        Go(r, ks) == IF ks = <<>> THEN r ELSE Go(Replaced(r, i, Head(ks), First(q, i, Head(ks))), Tail(ks))
    IN Restored(Dropped(Go(q, q.zones[i].ns), i), i)
SewingWorks == \A i \in DOMAIN s.zones : LET q == Sewn(s, i)  f == Exported(q)[i] IN
    FileCorners(f) = Corners(s, i) /\ Rng(f.pts) = UNION {Rng(Corners(s, i)[j]) : j \in DOMAIN Corners(s, i)}
Emit == Emitting /\ Len(hist) = MaxLen => PrintT(ToJson(hist))
=============================================================================
