---------------------------- MODULE TraceVectors ----------------------------
(***************************************************************************)
(* Recorded answers of vectors, triangles and volume functions.            *)
(***************************************************************************)
EXTENDS Vectors, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

All(r, P(_)) == \A i \in DOMAIN r.qs : P(r.qs[i])
\* all numbers are exact: lattice units or units of the square
Algebra(q) ==
    LET a == q.a  b == q.b IN
    /\ q.kept
    /\ q.sum = Add3(a, b) /\ q.diff = Sub3(a, b)
    /\ q.mul = Mul3(q.k, a) /\ q.rmul = Mul3(q.k, a) /\ q.div = a       \* (k a) / k
    /\ q.dot = Dot3(a, b) /\ q.cross = Cross3(a, b) /\ q.mod2 = Len2(a)
    /\ q.middle2 = Add3(a, b)
    /\ q.forms = <<a, a, a, a, a>>
    /\ q.set = [i \in 1..3 |-> IF i = q.at THEN b[i] ELSE a[i]]
Close(x, n) == x \in 0..10000 /\ (x = 0 \/ (x - 1) * (x - 1) <= n) /\ n <= (x + 1) * (x + 1)
Metric(q) ==
    LET d == Len2(Sub3(q.a, q.b)) IN
    /\ Close(q.dist, 10000 * d)                       \* scale 100
    /\ Close(q.mod, 10000 * Len2(q.a))
    /\ q.near = (100 * d < q.r * q.r)                 \* distance q.r / 10, never equal
    /\ q.same = (d = 0)
Orth(q) ==
    /\ \A i, j \in 1..3 : Abs(q.orth[i] * q.a[j] - q.orth[j] * q.a[i]) <= Abs(q.a[1]) + Abs(q.a[2]) + Abs(q.a[3]) + 1
    /\ Dot3(q.orth, q.a) > 0
    /\ Abs((q.orth[1] * q.orth[1]) \div 100 + (q.orth[2] * q.orth[2]) \div 100 + (q.orth[3] * q.orth[3]) \div 100 - 1000000) <= 600
\* points with noise below the tolerance, sorted: ps - lattice points, ranks of the answer
Sorted(q) ==
    /\ {q.order[i] : i \in DOMAIN q.order} = DOMAIN q.ps /\ Len(q.order) = Len(q.ps)
    /\ \A i \in 1..(Len(q.order) - 1) : ~ Lex(q.ps[q.order[i + 1]], q.ps[q.order[i]])
Less(q) == IF q.a = q.b THEN TRUE ELSE q.less = Lex(q.a, q.b)
On(q) == q.got = OnSegment(q.a, q.b, q.p)
Rounded(q) == q.tuple = q.n /\ q.vect = q.n /\ q.exact

(***************************************************************************)
(* Angles: thousandths of a degree, 1e-5 radians, thousandths of cosine.   *)
(***************************************************************************)
Angle(q) ==
    LET a == q.a  b == q.b  dg == q.deg  dot == Dot3(a, b) IN
    /\ dg \in 0..180000
    /\ (Cross3(a, b) = Zero3 => dg = (IF dot > 0 THEN 0 ELSE 180000))
    /\ (dot = 0 => dg = 90000)
    /\ \A k \in 0..180 : (Below(a, b, k) => dg <= 1000 * k + 1) /\ (Above(a, b, k) => dg >= 1000 * k - 1)
    /\ Abs(q.rad * 2034 - dg * 3550) <= 6000
    /\ q.cos \in -1000..1000 /\ Sgn(q.cos) \in {0, Sgn(dot)}
    /\ LET c == SCosOf(a, b) IN Abs(q.cos * Abs(q.cos) * c[2] - 1000000 * c[1]) <= 2500 * c[2]
\* greater cosine - smaller angle
Angles(r) ==
    /\ All(r, Angle)
    /\ \A i, j \in DOMAIN r.qs :
        LET c == SCosOf(r.qs[i].a, r.qs[i].b)  d == SCosOf(r.qs[j].a, r.qs[j].b) IN
        IF c[1] * d[2] > d[1] * c[2] THEN r.qs[i].deg <= r.qs[j].deg
        ELSE c[1] * d[2] = d[1] * c[2] => Abs(r.qs[i].deg - r.qs[j].deg) <= 1
Corner(t, i) == <<Sub3(t[1 + (i % 3)], t[i]), Sub3(t[1 + ((i + 1) % 3)], t[i])>>
Corners(q) ==
    LET cs == {Corner(q.t, i) : i \in 1..3} IN
    /\ (\A c \in cs : Below(c[1], c[2], q.k)) => q.got
    /\ (\E c \in cs : Above(c[1], c[2], q.k)) => ~ q.got
    \* an angle of exactly 90 degrees is not smaller than 90 degrees
    /\ (q.k = 90 /\ \E c \in cs : Dot3(c[1], c[2]) = 0) => ~ q.got
Sum3(t) == Add3(t[1], Add3(t[2], t[3]))
Axis3(q) ==
    /\ {q.order[i] : i \in DOMAIN q.order} = DOMAIN q.ts /\ Len(q.order) = Len(q.ts)
    /\ \A i \in 1..(Len(q.order) - 1) : Sum3(q.ts[q.order[i]])[q.axis] <= Sum3(q.ts[q.order[i + 1]])[q.axis]
\* Of two triangles of equal area the one with the smaller sides is better.
Sides2(t) == Len2(Sub3(t[1], t[2])) + Len2(Sub3(t[2], t[3])) + Len2(Sub3(t[3], t[1]))
Quality(q) ==
    Len2(Normal(q.t)) = Len2(Normal(q.u)) => Sgn(q.cmp) = Sgn(Sides2(q.t) - Sides2(q.u))

(***************************************************************************)
(* Volumes, six times, in units of the lattice.                            *)
(***************************************************************************)
Tetra(q) == q.v = Abs(Tetra6(q.p[1], q.p[2], q.p[3], q.p[4]))
Moved(q) == IF OneSide(q.t, q.n) THEN q.v = Abs(Moved6(q.t, q.n)) ELSE q.v >= Abs(Moved6(q.t, q.n))
\* the triangle turned so that its normal is the third axis
Layer(q) == q.a2 = CoefA2(q.t) /\ q.b4 = CoefB4(q.t, q.u) /\ q.c6 = CoefC6(q.u)

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "algebra" -> Clause(All(r, Algebra), "Algebra")
      [] r.ev = "metric" -> Clause(All(r, Metric), "Metric")
      [] r.ev = "orth" -> Clause(All(r, Orth), "Orth")
      [] r.ev = "less" -> Clause(All(r, Less), "Less")
      [] r.ev = "sorted" -> Clause(All(r, Sorted), "Sorted")
      [] r.ev = "on" -> Clause(All(r, On), "PointOnVector")
      [] r.ev = "round" -> Clause(All(r, Rounded), "Rounding")
      [] r.ev = "angle" -> Clause(Angles(r), "Angles")
      [] r.ev = "corners" -> Clause(All(r, Corners), "Corners")
      [] r.ev = "axis" -> Clause(All(r, Axis3), "SortedByAxis")
      [] r.ev = "quality" -> Clause(All(r, Quality), "Quality")
      [] r.ev = "tetra" -> Clause(All(r, Tetra), "Tetrahedron")
      [] r.ev = "moved" -> Clause(All(r, Moved), "MovedTriangle")
      [] r.ev = "layer" -> Clause(All(r, Layer), "Layer")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
