------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* Vectors with small integer coordinates: algebra, lexicographic order,   *)
(* angles, points of a segment, volumes of tetrahedra, of the space passed *)
(* by a moved triangle, and the cubic law of the volume of a layer over a  *)
(* triangle whose corners move along nodal normals.                        *)
(***************************************************************************)
EXTENDS Geom3

Len2(u) == Dot3(u, u)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Lex(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
OnSegment(a, b, p) == IF a = b THEN p = a ELSE
    /\ Cross3(Sub3(b, a), Sub3(p, a)) = Zero3
    /\ Dot3(Sub3(p, a), Sub3(b, a)) \in 0..Len2(Sub3(b, a))

(***************************************************************************)
(* Angles are compared by their cosines: sign * dot^2 / (|a|^2 |b|^2).     *)
(* CosSq[k + 1] is the square of the cosine of k degrees times 10000.      *)
(***************************************************************************)
CosSq == <<10000, 9997, 9988, 9973, 9951, 9924, 9891, 9851, 9806, 9755, 9698, 9636, 9568, 9494, 9415, 9330, 9240, 9145, 9045, 8940,
           8830, 8716, 8597, 8473, 8346, 8214, 8078, 7939, 7796, 7650, 7500, 7347, 7192, 7034, 6873, 6710, 6545, 6378, 6210, 6040,
           5868, 5696, 5523, 5349, 5174, 5000, 4826, 4651, 4477, 4304, 4132, 3960, 3790, 3622, 3455, 3290, 3127, 2966, 2808, 2653,
           2500, 2350, 2204, 2061, 1922, 1786, 1654, 1527, 1403, 1284, 1170, 1060, 955, 855, 760, 670, 585, 506, 432, 364,
           302, 245, 194, 149, 109, 76, 49, 27, 12, 3, 0>>
\* sign times square of the cosine of k degrees, k in 0..180, scale 10000
SCos(k) == IF k <= 90 THEN CosSq[k + 1] ELSE -CosSq[181 - k]
\* the same of two vectors: <<numerator, denominator>>
SCosOf(a, b) == LET d == Dot3(a, b) IN <<Sgn(d) * d * d, Len2(a) * Len2(b)>>
\* surely less / greater than k degrees, up to the error of the table
Below(a, b, k) == LET c == SCosOf(a, b) IN 10000 * c[1] > (SCos(k) + 1) * c[2]
Above(a, b, k) == LET c == SCosOf(a, b) IN 10000 * c[1] < (SCos(k) - 1) * c[2]

(***************************************************************************)
(* Volumes, six times.                                                     *)
(***************************************************************************)
Tetra6(a, b, c, d) == Det3(Sub3(a, d), Sub3(b, d), Sub3(c, d))
\* the prism is cut into three tetrahedra
Parts(t, n) == <<Tetra6(t[1], t[2], t[3], n[3]), Tetra6(t[1], t[2], n[3], n[2]), Tetra6(t[1], n[2], n[3], n[1])>>
Moved6(t, n) == LET p == Parts(t, n) IN p[1] + p[2] + p[3]
OneSide(t, n) == LET p == Parts(t, n) IN (\A i \in 1..3 : p[i] >= 0) \/ (\A i \in 1..3 : p[i] <= 0)

(***************************************************************************)
(* Layer over the triangle v with the unit normal e3 (coordinate axis):    *)
(* corners move along u[i], u[i][3] = W (scale W).  The section at the     *)
(* height h has the area A(h); the volume is a h + b h^2 + c h^3.          *)
(***************************************************************************)
W == 4
Plan2(u, w) == u[1] * w[2] - u[2] * w[1]
A2(v, u, h) == \* twice the area of the section at the height h, scale W^2
    LET p == [i \in 1..3 |-> Add3(Mul3(W, v[i]), Mul3(h, u[i]))] IN Plan2(Sub3(p[2], p[1]), Sub3(p[3], p[1]))
CoefA2(v) == Plan2(Sub3(v[2], v[1]), Sub3(v[3], v[1]))
CoefB4(v, u) == Plan2(Sub3(v[2], v[1]), Sub3(u[3], u[1])) + Plan2(Sub3(u[2], u[1]), Sub3(v[3], v[1]))     \* scale W
CoefC6(u) == Plan2(Sub3(u[2], u[1]), Sub3(u[3], u[1]))                                                    \* scale W^2
=============================================================================
