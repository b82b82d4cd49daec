----------------------------- MODULE TraceViews -----------------------------
(***************************************************************************)
(* What the grid, its zones, faces and edges answer about themselves, as   *)
(* functions of the grid (the projected structure G).                      *)
(* A face with the label d has the value d + (a fraction of its own) of    *)
(* every variable it has; a is the answer to all queries.                  *)
(***************************************************************************)
EXTENDS Mesh, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Zones(G) == DOMAIN G.zones
Counts(G) == <<Len(G.zones), Len(G.nodes), Len(G.edges), Len(G.faces), SumSeq([i \in Zones(G) |-> Len(G.zones[i].f)])>>
ZoneCounts(G, z) == <<Len(z.n), Len(z.e), Len(z.f)>>
Coords(G, z) == [i \in DOMAIN z.n |-> G.nodes[z.n[i]].p]
Rows(G, z) == [i \in DOMAIN z.f |-> <<G.faces[z.f[i]].g, G.faces[z.f[i]].d>>]
Labels(G, z) == [i \in DOMAIN z.f |-> G.faces[z.f[i]].d]
Ids(G, z) == [i \in DOMAIN z.f |-> G.faces[z.f[i]].g]
Links(G, z) == [i \in DOMAIN z.f |-> [k \in 1..3 |-> G.nodes[G.faces[z.f[i]].n[k]].g]]
Other(G, f, e) == LET o == RangeOf(G.edges[e].f) \ {f} IN IF o = {} THEN 0 ELSE CHOOSE x \in o : TRUE
Neighbours(G, f) == [k \in DOMAIN G.faces[f].e |-> Other(G, f, G.faces[f].e[k])]
Length2(G, e) == Dist2(G.nodes[G.edges[e].n[1]].p, G.nodes[G.edges[e].n[2]].p)
IsLongest(G, f, e) == /\ e \in RangeOf(G.faces[f].e)
                      /\ \A x \in RangeOf(G.faces[f].e) : Length2(G, x) <= Length2(G, e)
Corners(G, f) == [k \in 1..3 |-> G.nodes[G.faces[f].n[k]].p]
Center3(c) == <<PX(c[1]) + PX(c[2]) + PX(c[3]), PY(c[1]) + PY(c[2]) + PY(c[3]), PZ(c[1]) + PZ(c[2]) + PZ(c[3])>>
Adjacent(G, a, b) == RangeOf(G.edges[a].n) \cap RangeOf(G.edges[b].n) # {}
Ends(G, a) == {G.nodes[n].p : n \in RangeOf(G.edges[a].n)}
Connects(G, e, x, y) ==
    LET zs == [k \in DOMAIN G.edges[e].f |-> G.faces[G.edges[e].f[k]].z] IN
    Len(zs) = 2 /\ (zs = <<x, y>> \/ zs = <<y, x>>)

Clause(ok, n) == IF ok THEN {} ELSE {n}
Known(r, v) == \E i \in DOMAIN r.vars : r.vars[i] = v
BadViews(r) ==
    LET G == r.G  a == r.a IN
    Clause(a.counts = Counts(G), "Counts") \cup
    Clause(Len(a.zones) = Len(G.zones), "Zones") \cup
    UNION {LET z == G.zones[i]  q == a.zones[i] IN
        Clause(q.counts = ZoneCounts(G, z), "ZoneCounts") \cup
        Clause(q.coords = Coords(G, z) /\ q.slices = q.coords, "Coords") \cup
        Clause(q.rows = Rows(G, z), "Variables") \cup
        Clause(q.ids = Ids(G, z), "Ids") \cup
        Clause(q.links = Links(G, z), "Connectivity") \cup
        UNION {Clause(q.vars[k].v = (IF Known(r, q.vars[k].name) THEN Labels(G, z) ELSE [i2 \in DOMAIN z.f |-> -1]), "Variable") : k \in DOMAIN q.vars}
        : i \in Zones(G)} \cup
    UNION {LET q == a.faces[f] IN
        Clause(q.nb = Neighbours(G, f), "Neighbours") \cup
        Clause(IsLongest(G, f, q.long), "LongestEdge") \cup
        Clause(q.tri = Corners(G, f) /\ q.ref = f, "Triangle") \cup
        Clause(q.center = Center3(Corners(G, f)), "Center")
        : f \in DOMAIN G.faces} \cup
    Clause(Len(a.faces) = Len(G.faces), "Faces") \cup
    \* (edges of a not merged grid may have different end points at one place)
    Clause(\A k \in DOMAIN a.pairs : LET c == a.pairs[k] IN /\ Adjacent(G, c.e, c.f) => c.adj
                                                           /\ c.adj => Ends(G, c.e) \cap Ends(G, c.f) # {}, "Adjacent") \cup
    Clause(\A k \in DOMAIN a.connect : a.connect[k].c = Connects(G, a.connect[k].e, a.connect[k].x, a.connect[k].y), "Connects") \cup
    Clause(\A e \in DOMAIN G.edges : a.len2[e] = Length2(G, e), "Length")
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "setup" -> Clause(r.exc = "", "SetupRaises")
      [] r.exc # "" -> {"Raises"}
      [] r.same # TRUE -> {"Changed"}
      [] OTHER -> BadViews(r)
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
