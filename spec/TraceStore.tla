----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Loading and storing.  Points are tokens of exact coordinates, "key" is  *)
(* the class of a point at the merging resolution.                         *)
(*   Judge = "roundtrip" : files represent the grid exactly, both ways     *)
(*   Judge = "load"      : the loaded structure, and node merging          *)
(***************************************************************************)
EXTENDS Mesh, TLC, Json, IOUtils
CONSTANT Judge
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, surf     \* surf : what the last file or grid means, as sequences
vars == <<l, surf>>

(***************************************************************************)
(* Ordered meaning of a file and of a grid: the zones in order with their  *)
(* faces in order, each with its corner points in order.                   *)
(***************************************************************************)
FileTri(z, i) == [k \in 1..3 |-> z.pts[z.faces[i].n[k]]]
FileMeaning(F) == [title |-> F.title,
                   zones |-> [k \in DOMAIN F.zones |-> [name |-> F.zones[k].name,
                      faces |-> [i \in DOMAIN F.zones[k].faces |-> [t |-> FileTri(F.zones[k], i), d |-> F.zones[k].faces[i].d]]]]]
GridMeaning(G) == [title |-> G.name,
                   zones |-> [k \in DOMAIN G.zones |-> [name |-> G.zones[k].name,
                      faces |-> [i \in DOMAIN G.zones[k].f |->
                          LET f == G.faces[G.zones[k].f[i]] IN [t |-> Pts(G, f), d |-> f.d]]]]]
\* only the points of its own faces, each once
FileNodesOk(F, G) == \A k \in DOMAIN F.zones :
    /\ Len(F.zones[k].pts) = Cardinality(UNION {RangeOf(G.faces[G.zones[k].f[i]].n) : i \in DOMAIN G.zones[k].f})
    /\ UNION {RangeOf(F.zones[k].faces[i].n) : i \in DOMAIN F.zones[k].faces} = DOMAIN F.zones[k].pts

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))     \* (of a few zones)

(***************************************************************************)
(* Loading: the nodes of the grid.  pts[i] = [p, key].                     *)
(***************************************************************************)
AllPts(F) == Flat([k \in DOMAIN F.zones |-> F.zones[k].pts])
Offset(F, k) == SumSeq([q \in 1..(k-1) |-> Len(F.zones[q].pts)])
\* number of the file's node that represents file node i
Rep(F, merge, ps, i) == IF ~ merge THEN i ELSE CHOOSE j \in 1..i : ps[j].key = ps[i].key /\ \A q \in 1..(j-1) : ps[q].key # ps[i].key

\* A surface has at most two faces at an edge.
RepFaces(F, merge) ==
    LET ps == TLCEval(AllPts(F))
        rep == TLCEval([i \in DOMAIN ps |-> Rep(F, merge, ps, i)])
    IN Flat([k \in DOMAIN F.zones |-> [i \in DOMAIN F.zones[k].faces |-> [q \in 1..3 |-> rep[Offset(F, k) + F.zones[k].faces[i].n[q]]]]])
AtMostTwo(r) ==
    LET fs == TLCEval(RepFaces(r.file, r.merge))
        sides == TLCEval([i \in DOMAIN fs |-> {{fs[i][1], fs[i][2]}, {fs[i][2], fs[i][3]}, {fs[i][1], fs[i][3]}}])
        at == TLCEval([n \in UNION {RangeOf(fs[i]) : i \in DOMAIN fs} |-> {j \in DOMAIN fs : \E q \in 1..3 : fs[j][q] = n}])
    IN \A i \in DOMAIN fs : \A e \in sides[i] : Cardinality({j \in at[CHOOSE n \in e : TRUE] : e \in sides[j]}) <= 2

LoadBad(r) ==
    LET G == r.post  F == r.file  lk == WFLinks(G) IN
    IF lk # {} THEN lk ELSE
    LET ps == TLCEval(AllPts(F))
        rep == TLCEval([i \in DOMAIN ps |-> Rep(F, r.merge, ps, i)])
        reps == {i \in DOMAIN ps : rep[i] = i}
        wantFaces == TLCEval(Flat([k \in DOMAIN F.zones |-> [i \in DOMAIN F.zones[k].faces |->
                        [n |-> [q \in 1..3 |-> rep[Offset(F, k) + F.zones[k].faces[i].n[q]]],
                         d |-> F.zones[k].faces[i].d, z |-> k]]]))
        gotIds == [i \in DOMAIN G.faces |-> G.faces[i].g] IN
    WFIncidence(G) \cup WFZones(G) \cup WFIds(G) \cup
    (IF Len(G.nodes) = Cardinality(reps) THEN {} ELSE {"NodesCount"}) \cup
    (IF Len(G.faces) = Len(wantFaces) THEN {} ELSE {"FacesCount"}) \cup
    (IF Len(G.zones) = Len(F.zones) /\ \A k \in DOMAIN F.zones : k \in DOMAIN G.zones => G.zones[k].name = F.zones[k].name
     THEN {} ELSE {"Zones"}) \cup
    (IF G.name = F.title THEN {} ELSE {"Title"}) \cup
    \* the face with global id k is the k-th face of the file (0-based)
    (IF Len(G.faces) # Len(wantFaces) THEN {} ELSE
     LET want(f) == wantFaces[f.g + 1]
         good(f) == f.g \in 0..(Len(wantFaces) - 1) /\ f.d = want(f).d /\ f.z = want(f).z
                    /\ \A q \in 1..3 : G.nodes[f.n[q]].p = ps[want(f).n[q]].p
         \* grid nodes correspond one to one to representatives
         pairs == TLCEval(UNION {{<<G.faces[i].n[q], wantFaces[gotIds[i] + 1].n[q]>> : q \in 1..3} : i \in DOMAIN G.faces})
     IN (IF \A i \in DOMAIN G.faces : good(G.faces[i]) THEN {} ELSE {"Faces"}) \cup
        (IF (\A i \in DOMAIN G.faces : G.faces[i].g \in 0..(Len(wantFaces) - 1))
            => (Cardinality(pairs) = Cardinality({a[1] : a \in pairs}) /\ Cardinality(pairs) = Cardinality({a[2] : a \in pairs})) THEN {} ELSE {"Merging"}))

BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "setup" -> IF r.exc = "" THEN {} ELSE {"SetupRaises"}
      [] r.ev = "load" /\ Judge = "load" /\ ~ AtMostTwo(r) -> IF r.exc # "" THEN {} ELSE {"AcceptsThreeFacesAtAnEdge"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "load" /\ Judge = "load" -> LoadBad(r)
      [] r.ev = "load" /\ Judge = "roundtrip" ->
            IF WFLinks(r.post) # {} THEN {"Unresolvable"}
            ELSE IF GridMeaning(r.post) = FileMeaning(r.file) THEN {} ELSE {"LoadedMeaning"}
      [] r.ev = "store" ->
            IF WFLinks(r.post) # {} THEN {"Unresolvable"}
            ELSE (IF GridMeaning(r.post) = FileMeaning(r.file) THEN {} ELSE {"StoredMeaning"}) \cup
                 (IF r.file.vars = r.vars THEN {} ELSE {"Variables"}) \cup
                 (IF FileNodesOk(r.file, r.post) THEN {} ELSE {"FileNodes"})
      [] r.ev = "again" ->   \* load(store(g)) stored again means the same
            IF FileMeaning(r.file) = surf /\ r.file.vars = r.vars THEN {} ELSE {"SecondStore"}

TraceInit == l = 0 /\ surf = [title |-> ""]
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Trace[l + 1]
           bad == BadOf(r)
       IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>))
          /\ surf' = IF r.ev = "store" /\ r.exc = "" THEN FileMeaning(r.file) ELSE surf
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
