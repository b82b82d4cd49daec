------------------------------- MODULE Geom3 -------------------------------
(***************************************************************************)
(* Exact geometry of points, segments and triangles with small integer     *)
(* coordinates (0..8, so that everything fits into 32 bits).               *)
(* A point is <<x, y, z>>, a triangle is <<a, b, c>>, a segment <<p, q>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det3(a, b, c) == Dot3(a, Cross3(b, c))
Zero3 == <<0, 0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
Normal(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
Degenerate(t) == Normal(t) = Zero3

(***************************************************************************)
(* Rational numbers <<n, d>>, d > 0.                                       *)
(***************************************************************************)
Q(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
QLt(x, y) == x[1] * y[2] < y[1] * x[2]
QMax(S) == CHOOSE x \in S : \A y \in S : ~ QLt(x, y)
QMin(S) == CHOOSE x \in S : \A y \in S : ~ QLt(y, x)

(***************************************************************************)
(* Barycentric coordinates in the plane of the triangle, computed in the   *)
(* projection along the largest component of the normal:                   *)
(* w = p - a = (Alf/Den) (b - a) + (Bet/Den) (c - a).                      *)
(***************************************************************************)
Axis(t) == LET n == Normal(t) IN
    CHOOSE i \in 1..3 : \A j \in 1..3 : Abs(n[j]) <= Abs(n[i])
Det2(i, u, v) == LET j == 1 + (i % 3)  k == 1 + ((i + 1) % 3) IN u[j] * v[k] - u[k] * v[j]
\* <<alf, bet, 1 - alf - bet, denominator>>, the denominator is positive
Bary(t, p) == LET i == Axis(t)  u == Sub3(t[2], t[1])  v == Sub3(t[3], t[1])  w == Sub3(p, t[1])
                  d == Det2(i, u, v)  s == IF d < 0 THEN -1 ELSE 1
                  x == s * Det2(i, w, v)  y == s * Det2(i, u, w) IN <<x, y, s * d - x - y, s * d>>
InPlane(t, p) == Dot3(Normal(t), Sub3(p, t[1])) = 0

(***************************************************************************)
(* Position of a point: 0 - not in the triangle, 1 - a vertex, 2 - on an   *)
(* edge, 3 - inside.                                                       *)
(***************************************************************************)
PointClass(t, p) ==
    IF ~ InPlane(t, p) THEN 0
    ELSE LET b == Bary(t, p) IN
         IF \E k \in 1..3 : b[k] < 0 THEN 0 ELSE Cardinality({k \in 1..3 : b[k] > 0})

(***************************************************************************)
(* Segment and triangle.  The class:                                       *)
(*   cross  - the segment's interior goes through the triangle's interior  *)
(*   bound  - one common point on the border of the triangle or an end of  *)
(*            the segment                                                  *)
(*   miss   - no common points                                             *)
(*   over   - in one plane, a common part of positive length               *)
(*   end    - in one plane, an end of the segment is the only common point *)
(*            and the line of the segment goes on through the triangle       *)
(*   touch  - in one plane, another single common point                    *)
(* at : the ends of the common part as parameters of the segment           *)
(***************************************************************************)
\* the part of [0, 1] where P + x sl is not negative for sides S
Common(P, sl(_), S) ==
    LET los == {Q(-P[k], sl(k)) : k \in {j \in S : sl(j) > 0}}
        his == {Q(-P[k], sl(k)) : k \in {j \in S : sl(j) < 0}}
        lo == QMax({Q(0, 1)} \cup los)  hi == QMin({Q(1, 1)} \cup his)
        long == los = {} \/ his = {} \/ QLt(QMax(los), QMin(his)) IN
    IF (\E k \in S : sl(k) = 0 /\ P[k] < 0) \/ QLt(hi, lo) THEN [c |-> "miss", at |-> <<>>]
    ELSE IF QLt(lo, hi) THEN [c |-> "over", at |-> <<lo, hi>>]
    ELSE [c |-> IF long /\ \A k \in S : sl(k) = 0 => P[k] > 0 THEN "end" ELSE "touch", at |-> <<lo>>]
SegTri(t, s) ==
    LET a == t[1]  p == s[1]  q == s[2]
        ba == Sub3(t[2], a)  ca == Sub3(t[3], a)  pq == Sub3(p, q)  pa == Sub3(p, a)
        D == Det3(ba, ca, pq)  sg == IF D < 0 THEN -1 ELSE 1
        miss == [c |-> "miss", at |-> <<>>] IN
    IF D # 0 THEN
        LET d == sg * D  x == sg * Det3(pa, ca, pq)  y == sg * Det3(ba, pa, pq)  f == sg * Det3(ba, ca, pa) IN
        IF x < 0 \/ y < 0 \/ x + y > d \/ f < 0 \/ f > d THEN miss
        ELSE IF x > 0 /\ y > 0 /\ x + y < d /\ f > 0 /\ f < d THEN [c |-> "cross", at |-> <<Q(f, d)>>]
        ELSE [c |-> "bound", at |-> <<Q(f, d)>>]
    ELSE IF ~ InPlane(t, p) \/ ~ InPlane(t, q) THEN miss
    ELSE LET P == Bary(t, p)  R == Bary(t, q)
             sl(k) == R[k] - P[k] IN
         Common(P, sl, 1..3)

(***************************************************************************)
(* Reported points are integers scaled by K; a point of the segment with   *)
(* parameter n/d is p + (q - p) n/d.                                       *)
(***************************************************************************)
K == 16384
Tol == 2
Near(x, s, at) == \A i \in 1..3 :
    /\ x[i] \in (-9 * K)..(9 * K)
    /\ Abs(x[i] * at[2] - K * (s[1][i] * at[2] + (s[2][i] - s[1][i]) * at[1])) <= Tol * at[2]
NearP(x, y) == \A i \in 1..3 : Abs(x[i] - y[i]) <= 2 * Tol

\* What may be reported for the segment and the triangle.
Reported(r, s, got) ==
    CASE r.c = "miss" -> got = <<>>
      [] r.c = "cross" -> Len(got) = 1 /\ Near(got[1], s, r.at[1])
      [] r.c = "over" -> Len(got) = 2 /\ \/ Near(got[1], s, r.at[1]) /\ Near(got[2], s, r.at[2])
                                         \/ Near(got[1], s, r.at[2]) /\ Near(got[2], s, r.at[1])
      [] r.c \in {"bound", "touch"} -> \A i \in DOMAIN got : Near(got[i], s, r.at[1])
      [] r.c = "end" -> got # <<>> /\ \A i \in DOMAIN got : Near(got[i], s, r.at[1])
SegOk(t, s, got) == Reported(SegTri(t, s), s, got)
\* Is something reported?  "yes", "no" or "any" (the border is subject to rounding errors)
Must(t, s) == LET c == SegTri(t, s).c IN IF c \in {"cross", "over", "end"} THEN "yes" ELSE IF c = "miss" THEN "no" ELSE "any"

(***************************************************************************)
(* Infinitely close to the point o of the triangle the triangle is a cone: *)
(* half planes of its sides that go through o.  InCone: is o + eps w in    *)
(* the triangle ("yes", "no", "any" on a side).                            *)
(***************************************************************************)
BaryOf(t, w) == LET b == Bary(t, Add3(t[1], w)) IN <<b[1], b[2], b[3] - b[4]>>        \* of a vector
AtSides(t, o) == LET b == Bary(t, o) IN {k \in 1..3 : b[k] = 0}
InCone(t, o, w) == LET d == BaryOf(t, w)  S == AtSides(t, o) IN
    IF \E k \in S : d[k] < 0 THEN "no" ELSE IF \E k \in S : d[k] = 0 THEN "any" ELSE "yes"
\* The segment o + eps u, o + eps w in the plane of the triangle.
SegCone(t, o, u, w) ==
    LET P == BaryOf(t, u)  R == BaryOf(t, w)  S == AtSides(t, o)
        sl(k) == R[k] - P[k] IN
    Common(P, sl, S)
ConeOk(t, o, u, w, got) == Reported(SegCone(t, o, u, w), <<u, w>>, got)

(***************************************************************************)
(* Two triangles: common points are looked for on their sides.             *)
(***************************************************************************)
Sides(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
Pairs(t, u) == {<<t, s>> : s \in Sides(u)} \cup {<<u, s>> : s \in Sides(t)}
TriMust(t, u) == LET m == {Must(x[1], x[2]) : x \in Pairs(t, u)} IN
    IF "yes" \in m THEN "yes" ELSE IF m = {"no"} THEN "no" ELSE "any"
TriOk(t, u, got) ==
    LET ps == Pairs(t, u)
        on(x, g) == \E k \in DOMAIN SegTri(x[1], x[2]).at : Near(g, x[2], SegTri(x[1], x[2]).at[k]) IN
    /\ \A i \in DOMAIN got : \E x \in ps : on(x, got[i])
    /\ \A x \in ps : Must(x[1], x[2]) = "yes" =>
         \A k \in DOMAIN SegTri(x[1], x[2]).at : \E i \in DOMAIN got : Near(got[i], x[2], SegTri(x[1], x[2]).at[k])
    /\ \A i, j \in DOMAIN got : i # j => got[i] # got[j]

(***************************************************************************)
(* Boxes <<min, max>>.                                                     *)
(***************************************************************************)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOfS(S) == CHOOSE x \in S : \A y \in S : y <= x
BoxOf(ps) == <<[i \in 1..3 |-> MinOf({p[i] : p \in ps})], [i \in 1..3 |-> MaxOfS({p[i] : p \in ps})]>>
InBox(b, p) == \A i \in 1..3 : b[1][i] <= p[i] /\ p[i] <= b[2][i]
BoxesMeet(b, c) == \A i \in 1..3 : b[1][i] <= c[2][i] /\ c[1][i] <= b[2][i]
=============================================================================
