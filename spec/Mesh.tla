------------------------------- MODULE Mesh -------------------------------
(***************************************************************************)
(* Triangulated zoned surface: the abstract state every other module talks *)
(* about, and its relation to the concrete incidence structure kept by the *)
(* implementation (nodes, edges, faces, zones and all links between them). *)
(*                                                                         *)
(* Points are integers (lattice codes; negative codes are points off the   *)
(* lattice).  A face of the abstract surface is a record                   *)
(*     [t |-> cyclic triple of points, d |-> data token, z |-> zone name]  *)
(* a surface is a set of such faces.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in DOMAIN s}
Injective(s) == Cardinality(RangeOf(s)) = Len(s)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* Cyclic triples are represented by the rotation with the smallest point first.
Canon(t) ==
    IF t[1] <= t[2] /\ t[1] <= t[3] THEN <<t[1], t[2], t[3]>>
    ELSE IF t[2] <= t[1] /\ t[2] <= t[3] THEN <<t[2], t[3], t[1]>>
    ELSE <<t[3], t[1], t[2]>>

\* Packed lattice points.
PX(c) == c \div 1048576
PY(c) == (c \div 1024) % 1024
PZ(c) == c % 1024
Pack(x, y, z) == x * 1048576 + y * 1024 + z
Dist2(a, b) == (PX(a)-PX(b))*(PX(a)-PX(b)) + (PY(a)-PY(b))*(PY(a)-PY(b)) + (PZ(a)-PZ(b))*(PZ(a)-PZ(b))
HasMid(a, b) == /\ (PX(a)+PX(b)) % 2 = 0 /\ (PY(a)+PY(b)) % 2 = 0 /\ (PZ(a)+PZ(b)) % 2 = 0
Mid(a, b) == Pack((PX(a)+PX(b)) \div 2, (PY(a)+PY(b)) \div 2, (PZ(a)+PZ(b)) \div 2)

(***************************************************************************)
(* Topology of an abstract surface                                         *)
(***************************************************************************)
Points(S)   == UNION {RangeOf(f.t) : f \in S}
Sides(f)    == {{f.t[1], f.t[2]}, {f.t[2], f.t[3]}, {f.t[3], f.t[1]}}
DSides(f)   == {<<f.t[1], f.t[2]>>, <<f.t[2], f.t[3]>>, <<f.t[3], f.t[1]>>}
EdgesOf(S)  == UNION {Sides(f) : f \in S}
Around(S, e) == {f \in S : e \subseteq RangeOf(f.t)}
Star(S, p)  == {f \in S : p \in RangeOf(f.t)}
Border(S)   == {e \in EdgesOf(S) : Cardinality(Around(S, e)) = 1}
BorderPoints(S) == UNION Border(S)

Manifold(S) == \A e \in EdgesOf(S) : Cardinality(Around(S, e)) <= 2
Proper(S)   == \A f \in S : Cardinality(RangeOf(f.t)) = 3
\* Neighbour faces run through their common edge in opposite directions.
Oriented(S) == \A f, g \in S : f # g => DSides(f) \cap DSides(g) = {}
Euler(S)    == Cardinality(Points(S)) - Cardinality(EdgesOf(S)) + Cardinality(S)

\* Twice the vector area of a face, and of a surface (integers).
Cross(a, b, c) ==
    LET ux == PX(b)-PX(a)  uy == PY(b)-PY(a)  uz == PZ(b)-PZ(a)
        vx == PX(c)-PX(a)  vy == PY(c)-PY(a)  vz == PZ(c)-PZ(a)
    IN <<uy*vz - uz*vy, uz*vx - ux*vz, ux*vy - uy*vx>>
RECURSIVE VArea(_)
VArea(S) == IF S = {} THEN <<0, 0, 0>>
            ELSE LET f == CHOOSE f \in S : TRUE
                     r == VArea(S \ {f})
                     c == Cross(f.t[1], f.t[2], f.t[3])
                 IN <<r[1]+c[1], r[2]+c[2], r[3]+c[3]>>

(***************************************************************************)
(* The concrete incidence structure (projection of a Grid object):         *)
(*   G.nodes[i] = [p, g, e, f]      point, global id, edges, faces         *)
(*   G.edges[i] = [g, n, f]         G.faces[i] = [g, n, e, z, d]           *)
(*   G.zones[i] = [name, n, e, f]                                          *)
(* References are positions in these lists, 0 is an object that is not     *)
(* registered in the grid.                                                 *)
(***************************************************************************)
RefsOk(s, n) == Injective(s) /\ RangeOf(s) \subseteq 1..n

Pts(G, f) == <<G.nodes[f.n[1]].p, G.nodes[f.n[2]].p, G.nodes[f.n[3]].p>>

IdsOk(objs) == {objs[i].g : i \in DOMAIN objs} = 0..(Len(objs) - 1)

\* Names of the violated consistency clauses.
WFLinks(G) ==
    LET nn == Len(G.nodes)  ne == Len(G.edges)  nf == Len(G.faces)  nz == Len(G.zones) IN
    (IF \A i \in 1..nn : RefsOk(G.nodes[i].e, ne) /\ RefsOk(G.nodes[i].f, nf) THEN {} ELSE {"NodeRefs"}) \cup
    (IF \A i \in 1..ne : RefsOk(G.edges[i].n, nn) /\ RefsOk(G.edges[i].f, nf) /\ Len(G.edges[i].n) = 2
                          /\ Len(G.edges[i].f) \in {1, 2} THEN {} ELSE {"EdgeRefs"}) \cup
    (IF \A i \in 1..nf : RefsOk(G.faces[i].n, nn) /\ RefsOk(G.faces[i].e, ne) /\ Len(G.faces[i].n) = 3
                          /\ Len(G.faces[i].e) = 3 /\ G.faces[i].z \in 1..nz THEN {} ELSE {"FaceRefs"}) \cup
    (IF \A i \in 1..nz : RefsOk(G.zones[i].n, nn) /\ RefsOk(G.zones[i].e, ne) /\ RefsOk(G.zones[i].f, nf)
        THEN {} ELSE {"ZoneRefs"})

WFIncidence(G) ==
    LET nn == Len(G.nodes)  ne == Len(G.edges)  nf == Len(G.faces)
        \* links as sets of pairs
        nOfE == TLCEval([i \in 1..ne |-> RangeOf(G.edges[i].n)])
        eOfF == TLCEval([i \in 1..nf |-> RangeOf(G.faces[i].e)]) IN
    (IF UNION {{<<i, j>> : j \in RangeOf(G.nodes[i].e)} : i \in 1..nn} = UNION {{<<i, j>> : i \in nOfE[j]} : j \in 1..ne} THEN {} ELSE {"NodeEdgeLinks"}) \cup
    (IF UNION {{<<i, j>> : j \in RangeOf(G.nodes[i].f)} : i \in 1..nn} = UNION {{<<i, j>> : i \in RangeOf(G.faces[j].n)} : j \in 1..nf} THEN {} ELSE {"NodeFaceLinks"}) \cup
    (IF UNION {{<<i, j>> : j \in RangeOf(G.edges[i].f)} : i \in 1..ne} = UNION {{<<i, j>> : i \in eOfF[j]} : j \in 1..nf} THEN {} ELSE {"EdgeFaceLinks"}) \cup
    \* an edge is identified by its end points, a face's edges are exactly its sides
    (IF Cardinality({nOfE[i] : i \in 1..ne}) = ne THEN {} ELSE {"EdgeUnique"}) \cup
    (IF \A i \in 1..nf : {nOfE[j] : j \in eOfF[i]} =
            {{G.faces[i].n[1], G.faces[i].n[2]}, {G.faces[i].n[2], G.faces[i].n[3]}, {G.faces[i].n[3], G.faces[i].n[1]}}
        THEN {} ELSE {"FaceSides"}) \cup
    (IF \A i \in 1..nn : G.nodes[i].f # <<>> THEN {} ELSE {"UnusedNode"})

\* Zones partition the faces, and hold exactly the nodes and edges of their faces.
WFZones(G) ==
    LET nn == Len(G.nodes)  ne == Len(G.edges)  nf == Len(G.faces)  nz == Len(G.zones)
        inZ == [k \in 1..nz |-> RangeOf(G.zones[k].f)] IN
    (IF \A k \in 1..nz : inZ[k] = {i \in 1..nf : G.faces[i].z = k} THEN {} ELSE {"ZoneFaces"}) \cup
    (IF \A k \in 1..nz : RangeOf(G.zones[k].n) = UNION {RangeOf(G.faces[i].n) : i \in inZ[k]} THEN {} ELSE {"ZoneNodes"}) \cup
    (IF \A k \in 1..nz : RangeOf(G.zones[k].e) = UNION {RangeOf(G.faces[i].e) : i \in inZ[k]} THEN {} ELSE {"ZoneEdges"})

WFIds(G) ==
    (IF IdsOk(G.nodes) THEN {} ELSE {"NodeIds"}) \cup
    (IF IdsOk(G.edges) THEN {} ELSE {"EdgeIds"}) \cup
    (IF IdsOk(G.faces) THEN {} ELSE {"FaceIds"})

WFDistinct(G) ==
    IF Cardinality({G.nodes[i].p : i \in DOMAIN G.nodes}) = Len(G.nodes) THEN {} ELSE {"DuplicateNodes"}

\* The structural clauses assume that references are resolvable.
WellFormed(G) ==
    LET r == WFLinks(G) IN
    IF r # {} THEN r ELSE WFIncidence(G) \cup WFZones(G) \cup WFIds(G) \cup WFDistinct(G)

\* The abstract surface of a concrete structure, and a check that no face is represented twice.
Abs(G) == {[t |-> Canon(Pts(G, G.faces[i])), d |-> G.faces[i].d, z |-> G.zones[G.faces[i].z].name] : i \in DOMAIN G.faces}

FaceRec(t, d, z) == [t |-> Canon(t), d |-> d, z |-> z]
=============================================================================
