-------------------------- MODULE TraceDecompose --------------------------
(***************************************************************************)
(* Validates recorded histories of decompositions.  Judge:                 *)
(*   "partition" : nothing but the zones changes, zones are consistent     *)
(*   "shape"     : sizes, names, shapes, fixed zones                       *)
(***************************************************************************)
EXTENDS Mesh, DecompShape, TLC, Json, IOUtils

CONSTANT Judge

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, g
vars == <<l, g>>

Static(G) == [nodes |-> [i \in DOMAIN G.nodes |-> <<G.nodes[i].p, G.nodes[i].g, RangeOf(G.nodes[i].e), RangeOf(G.nodes[i].f)>>],
              edges |-> [i \in DOMAIN G.edges |-> <<G.edges[i].g, RangeOf(G.edges[i].n), RangeOf(G.edges[i].f)>>],
              faces |-> [i \in DOMAIN G.faces |-> <<G.faces[i].g, G.faces[i].n, RangeOf(G.faces[i].e), G.faces[i].d>>]]
ZonesOf(G) == [k \in DOMAIN G.zones |-> [name |-> G.zones[k].name, f |-> RangeOf(G.zones[k].f)]]
AdjOf(G) == {RangeOf(G.edges[i].f) : i \in {j \in DOMAIN G.edges : Len(G.edges[j].f) = 2}}
CenOf(G) == [i \in DOMAIN G.faces |->
    LET t == Pts(G, G.faces[i]) IN <<PX(t[1]) + PX(t[2]) + PX(t[3]), PY(t[1]) + PY(t[2]) + PY(t[3]), PZ(t[1]) + PZ(t[2]) + PZ(t[3])>>]

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

\* The zones that survive a call.
Fixed(G, o) == IF o.op \in {"farhat", "hier"} THEN {k \in DOMAIN G.zones : G.zones[k].name \in RangeOf(o.fx)} ELSE {}

PartitionBad(r) ==
    LET G == r.post  lk == WFLinks(G) IN
    IF lk # {} THEN lk
    ELSE WFZones(G) \cup
         (IF Static(G) = Static(g) THEN {} ELSE {"ChangesGrid"}) \cup
         (IF Partition(ZonesOf(G), Len(G.faces)) THEN {} ELSE {"NotPartition"}) \cup
         (IF r.zids = [k \in DOMAIN G.zones |-> k - 1] THEN {} ELSE {"ZoneIds"}) \cup
         (IF G.name = (IF r.o.newname = "" THEN g.name ELSE r.o.newname) THEN {} ELSE {"GridName"})

ShapeBad(r) ==
    LET G == r.post  o == r.o  n == Len(G.faces)
        fx == Fixed(g, o)
        old == ZonesOf(g)  new == ZonesOf(G)
        kept == {old[k] : k \in fx}
        \* (empty zones may be equal: as many of them are kept as there were)
        nold(z) == Cardinality({k \in fx : old[k] = z})
        isKept(i) == Cardinality({j \in 1..i : new[j] = new[i]}) <= nold(new[i])
        pick(i) == IF isKept(i) THEN <<>> ELSE <<new[i]>>
        fresh == TLCEval(FlatSeq([i \in DOMAIN new |-> pick(i)]))
        free == 1..n \ UNION {z.f : z \in kept}
        named(pre) == \A i \in DOMAIN fresh : fresh[i].name = pre \o ToString(i - 1)
    IN
    IF WFLinks(G) # {} THEN {"Unresolvable"} ELSE
    (IF (\A k \in fx : Cardinality({j \in DOMAIN new : new[j] = old[k]}) >= nold(old[k])) /\ Len(new) = Len(fresh) + Cardinality(fx) THEN {} ELSE {"FixedZones"}) \cup
    (IF Disjoint(fresh) /\ Zoned(fresh) = free THEN {} ELSE {"Cover"}) \cup
    (CASE o.op = "mono"   -> IF new = <<[name |-> "mono", f |-> 1..n]>> THEN {} ELSE {"Mono"}
       [] o.op = "random" -> IF Len(new) = o.c /\ named("random ") THEN {} ELSE {"Random"}
       [] o.op = "linear" -> IF LinearOk(new, n, o.c) /\ named("linear ") THEN {} ELSE {"Linear"}
       [] o.op = "farhat" -> (IF FarhatOk(fresh, free, o.c, TLCEval(AdjOf(g))) THEN {} ELSE {"Farhat"}) \cup
                             (IF named("farhat ") THEN {} ELSE {"FarhatNames"})
       [] o.op = "hier"   -> IF HierOk(fresh, free, o.c, TLCEval(CenOf(g)), TLCEval(AdjOf(g))) /\ (\A i \in DOMAIN fresh : fresh[i].f # {} \/ free = {})
                             THEN {} ELSE {"Hierarchical"})

BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev \in {"load", "edit"} -> IF r.exc = "" THEN {} ELSE {"SetupRaises"}
      [] r.ev = "decomp" -> IF r.exc # "" THEN {"Raises"}
                            ELSE IF Judge = "partition" THEN PartitionBad(r) ELSE ShapeBad(r)

TraceInit == l = 0 /\ g = [name |-> ""]
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Trace[l + 1]
           bad == BadOf(r)
       IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>))
          /\ g' = IF "post" \in DOMAIN r THEN r.post ELSE g
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
