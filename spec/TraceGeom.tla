----------------------------- MODULE TraceGeom -----------------------------
(***************************************************************************)
(* Recorded answers of the geometric classes.                              *)
(***************************************************************************)
EXTENDS Geom3, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

SumP(t) == Add3(t[1], Add3(t[2], t[3]))
Len2(u) == Dot3(u, u)
\* x is the square root of n up to tol, x scaled by 100
Sqrt100(x, n, tol) == LET lo == IF x < tol THEN 0 ELSE x - tol  hi == x + tol IN
    /\ x \in 0..40000
    /\ lo * lo <= 10000 * n
    /\ 10000 * n <= hi * hi

\* A scaled normal of length 1 (scale 10000) with the direction of N.
UnitAlong(x, N) ==
    /\ \A i \in 1..3 : x[i] \in -10001..10001
    /\ \A i, j \in 1..3 : Abs(x[i] * N[j] - x[j] * N[i]) <= Abs(N[1]) + Abs(N[2]) + Abs(N[3]) + 1
    /\ Dot3(x, N) > 0
    /\ Abs((x[1] * x[1]) \div 100 + (x[2] * x[2]) \div 100 + (x[3] * x[3]) \div 100 - 1000000) <= 600

\* Each clause applies to all queries q of a record.
All(r, P(_)) == \A i \in DOMAIN r.qs : P(r.qs[i])
\* exact : differences of coordinates are 0, 1, -1 times a power of two, so no operation rounds
Seg(q) == /\ SegOk(q.t, q.s, q.got)
          /\ (q.exact /\ SegTri(q.t, q.s).c = "bound") => Len(q.got) = 1
\* passes the plane of the triangle infinitely close to its point o, or ends there just before (above) or after the plane
Graze(q) == LET m == InCone(q.t, q.o, q.w) IN
    CASE m = "any" -> TRUE
      [] m = "no" \/ q.short -> q.got = <<>>
      [] OTHER -> Len(q.got) = 1 /\ NearP(q.got[1], Mul3(K, q.o))
Cone(q) == ConeOk(q.t, q.o, q.u, q.w, q.got)
\* a point of the plane infinitely close to o
PitNear(q) == LET m == InCone(q.t, q.o, q.w) IN CASE m = "no" -> q.got = 0 [] m = "yes" -> q.got = 3 [] OTHER -> TRUE
Pit(q) == q.got = PointClass(q.t, q.p)
Plane(q) == q.got = InPlane(q.t, q.p)
Planes(q) == q.got = (\A k \in 1..3 : InPlane(q.t, q.u[k]))
TriTri(q) == TriOk(q.t, q.u, q.got)
Measure(q) ==
    LET n == Normal(q.t) IN
    /\ NearP(q.centroid, [i \in 1..3 |-> (K * SumP(q.t)[i]) \div 3])
    /\ Sqrt100(q.area2, Len2(n), 1)              \* twice the area
    /\ UnitAlong(q.normal, n)
    /\ Sqrt100(q.side, MinOf({Len2(Sub3(s[1], s[2])) : s \in Sides(q.t)}), 1)
\* Triangles are equal when they have the same vertices.
Same(q) == q.got = ({q.t[1], q.t[2], q.t[3]} = {q.u[1], q.u[2], q.u[3]})
Boxes(q) ==
    LET b == BoxOf({q.ps[i] : i \in DOMAIN q.ps}) IN
    /\ q.box = b
    /\ q.inside = [i \in DOMAIN q.x |-> InBox(b, q.x[i])]
    /\ q.meets = [i \in DOMAIN q.bs |-> BoxesMeet(b, BoxOf({q.bs[i][1], q.bs[i][2]}))]
    \* a segment with a point in the box is never reported as missing it
    /\ \A i \in DOMAIN q.segs : (InBox(b, q.segs[i][1]) \/ InBox(b, q.segs[i][2]) \/ q.segs[i][3]) => q.seg[i]

(***************************************************************************)
(* Clouds.  ts : triangles; a segment query has the answer (number of the  *)
(* triangle or 0, -1 for a foreign object) and the triangles reported one  *)
(* by one; a pair query has the pairs reported for two clouds.             *)
(***************************************************************************)
CloudSeg(r) == \A i \in DOMAIN r.qs :
    LET q == r.qs[i]
        m(k) == Must(r.ts[k], q.s) IN
    /\ q.got \in 0..Len(r.ts)
    /\ IF q.got = 0 THEN \A k \in DOMAIN r.ts : m(k) # "yes"
       ELSE m(q.got) # "no"
CloudBrute(r) == \A i \in DOMAIN r.qs :
    LET q == r.qs[i] IN IF q.got = 0 THEN q.one = <<>> ELSE \E k \in DOMAIN q.one : q.one[k] = q.got
SetOf(s) == {s[i] : i \in DOMAIN s}
\* pairs <<i, j>> of triangles of the first and of the second cloud; the order within a reported pair is free
CloudPairs(r) ==
    LET got == {<<r.pairs[i][1], r.pairs[i][2]>> : i \in DOMAIN r.pairs}
        one == {<<r.one[i][1], r.one[i][2]>> : i \in DOMAIN r.one} IN
    /\ got = one
    /\ Cardinality(got) = Len(r.pairs)
CloudPairsExact(r) ==
    LET got == {<<r.pairs[i][1], r.pairs[i][2]>> : i \in DOMAIN r.pairs} IN
    /\ \A i \in DOMAIN r.ts : \A j \in DOMAIN r.us :
         LET m == IF r.same /\ i = j THEN "no" ELSE TriMust(r.ts[i], r.us[j]) IN
         /\ m = "yes" => <<i, j>> \in got
         /\ m = "no" => <<i, j>> \notin got
CloudPoints(r) == \A i \in DOMAIN r.pairs : TriOk(r.ts[r.pairs[i][1]], r.us[r.pairs[i][2]], r.pts[i])

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "seg" -> Clause(All(r, Seg), "SegmentTriangle")
      [] r.ev = "pit" -> Clause(All(r, Pit), "PointInTriangle")
      [] r.ev = "graze" -> Clause(All(r, Graze), "NearBorder")
      [] r.ev = "cone" -> Clause(All(r, Cone), "ShortSegment")
      [] r.ev = "near" -> Clause(All(r, PitNear), "PointNearBorder")
      [] r.ev = "plane" -> Clause(All(r, Plane), "PointInPlane")
      [] r.ev = "planes" -> Clause(All(r, Planes), "TriangleInPlane")
      [] r.ev = "tt" -> Clause(All(r, TriTri), "TriangleTriangle")
      [] r.ev = "measure" -> Clause(All(r, Measure), "Measures")
      [] r.ev = "same" -> Clause(All(r, Same), "Equality")
      [] r.ev = "box" -> Clause(All(r, Boxes), "Boxes")
      [] r.ev = "cloud" -> Clause(CloudSeg(r), "FirstIntersection") \cup Clause(CloudBrute(r), "CloudDiffersFromTriangles")
      [] r.ev = "clouds" -> Clause(CloudPairs(r), "PairsDifferFromTriangles") \cup Clause(CloudPairsExact(r), "Pairs") \cup Clause(CloudPoints(r), "PairPoints")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
