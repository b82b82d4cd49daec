-------------------------- MODULE TraceTransforms --------------------------
(***************************************************************************)
(* Validates recorded histories of grid modifications: each record carries *)
(* the operation, its outcome and the complete incidence structure after   *)
(* it.  The specification keeps its own surface; a step of the code has to *)
(* be the step of the specification.                                       *)
(*   Judge = "consistency" : the structure is consistent after every step  *)
(*   Judge = "effect"      : the surface is the specified one              *)
(***************************************************************************)
EXTENDS SurfaceOps, TLC, Json, IOUtils

CONSTANT Judge

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, surf
vars == <<l, surf>>

Has(r, k) == k \in DOMAIN r

FileSurf(file) == UNION {{FaceRec(<<file.zones[k].pts[file.zones[k].faces[i].n[1]],
                                   file.zones[k].pts[file.zones[k].faces[i].n[2]],
                                   file.zones[k].pts[file.zones[k].faces[i].n[3]]>>,
                                  file.zones[k].faces[i].d, file.zones[k].name)
                          : i \in DOMAIN file.zones[k].faces} : k \in DOMAIN file.zones}
FileFaces(file) == LET s == [k \in DOMAIN file.zones |-> Len(file.zones[k].faces)] IN SumSeq(s)

\* The faces with the given triple of points, in any rotation.
FaceAt(S, t) == {f \in S : f.t = Canon(t)}

(***************************************************************************)
(* The set of [surf, ret] pairs the specification allows for an operation. *)
(***************************************************************************)
Outcomes(S, o) ==
    LET a == o.t[1]  b == o.t[2]  n == Cardinality(Around(S, {a, b})) IN
    CASE o.op = "divide"   -> {[s |-> Divide(S, f, o.p), ret |-> TRUE] : f \in FaceAt(S, o.t)}
      [] o.op = "cut"      -> IF n = 2 THEN {[s |-> Cut(S, a, b, o.p), ret |-> TRUE]} ELSE {[s |-> S, ret |-> FALSE]}
      [] o.op = "cut1"     -> IF n = 1 THEN {[s |-> Cut(S, a, b, o.p), ret |-> TRUE]} ELSE {[s |-> S, ret |-> FALSE]}
      [] o.op = "cut2"     -> {[s |-> Cut2(S, a, b, o.p, o.q), ret |-> TRUE]}
      [] o.op = "collapse" -> IF n = 2 THEN {[s |-> Collapse(S, a, b), ret |-> TRUE]} ELSE {[s |-> S, ret |-> FALSE]}
      [] o.op = "flip"     -> UNION {{IF Cardinality(Around(S, e)) = 2 THEN [s |-> Flip(S, f, e), ret |-> TRUE]
                                      ELSE [s |-> S, ret |-> FALSE] : e \in LongestSides(f)} : f \in FaceAt(S, o.t)}
      [] o.op = "setdata"  -> {[s |-> (S \ {f}) \cup {[f EXCEPT !.d = o.p]}, ret |-> TRUE] : f \in FaceAt(S, o.t)}

Consistency == Judge = "consistency"
Effect == Judge = "effect"

\* The grid finds the points of its nodes, and no others.
Near(r) == \A i \in DOMAIN r.near : r.near[i][2] = IF r.near[i][1] \in RangeOf(r.here) THEN r.near[i][1] ELSE -1
PostBad(r) == IF Consistency THEN WellFormed(r.post) \cup (IF Has(r, "near") => Near(r) THEN {} ELSE {"FindNearNode"}) ELSE {}
Resolvable(r) == WFLinks(r.post) = {}

BadOf(r) ==
    IF r.ev = "crash" THEN {"Crash"}
    ELSE IF r.ev = "load" THEN
        (IF r.exc # "" THEN {"Raises"} ELSE PostBad(r))
    ELSE IF r.ev = "op" THEN
        IF r.exc # "" THEN {"Raises"}
        ELSE PostBad(r) \cup
             (IF Consistency THEN {}
              ELSE IF ~ Resolvable(r) THEN {"Unresolvable"}
              ELSE (IF \E o \in Outcomes(surf, r.o) : o.s = Abs(r.post) THEN {} ELSE {"Surface"}) \cup
                   (IF Len(r.post.faces) = Cardinality(Abs(r.post)) THEN {} ELSE {"FaceTwice"}) \cup
                   (IF \E o \in Outcomes(surf, r.o) : o.ret = r.ret THEN {} ELSE {"Result"}))
    ELSE IF r.ev = "store" THEN
        \* the grid is written, read again, and written for the solver
        IF r.exc # "" THEN {"StoreRaises"}
        ELSE (IF FileSurf(r.file) = surf /\ FileFaces(r.file) = Cardinality(surf) THEN {} ELSE {"StoredSurface"}) \cup
             (IF r.exc2 # "" THEN {"ReloadRaises"} ELSE PostBad(r)) \cup
             (IF r.exc3 # "" THEN {"StoreMpiRaises"} ELSE {})
    ELSE {"UnknownRecord"}

\* The specification's own step; after a mismatch it continues from what the code produced.
NextSurf(r) ==
    IF r.ev \in {"load", "op"} /\ r.exc = "" /\ Has(r, "post") /\ Resolvable(r) THEN Abs(r.post) ELSE surf

TraceInit == l = 0 /\ surf = {}
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Trace[l + 1]
           bad == BadOf(r)
       IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>))
          /\ surf' = NextSurf(r)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
