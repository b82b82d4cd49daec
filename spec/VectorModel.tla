---------------------------- MODULE VectorModel ----------------------------
(***************************************************************************)
(* The identities behind the oracle, for all vectors of a small cube.      *)
(***************************************************************************)
EXTENDS Vectors, TLC
CONSTANTS Max
VARIABLES a, b, c, d
vars == <<a, b, c, d>>
P == {<<x, y, z>> : x, y, z \in 0..Max}
D == {<<x, y, z>> : x, y, z \in {-1, 0, 1}}
Init == a = Zero3 /\ b \in P /\ c \in P /\ d \in D
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Lagrange == Len2(Cross3(b, c)) + Dot3(b, c) * Dot3(b, c) = Len2(b) * Len2(c)
Orthogonal == Dot3(Cross3(b, c), b) = 0 /\ Dot3(Cross3(b, c), c) = 0 /\ Cross3(b, c) = Mul3(-1, Cross3(c, b))
\* exactly one of <, =, >
Order == Cardinality({k \in 1..3 : <<Lex(b, c), b = c, Lex(c, b)>>[k]}) = 1
\* points of a segment are those with the distances to the ends that add up: |bp| |pc| = (b - p).(p - c)
Segment == LET u == Sub3(d, b)  w == Sub3(c, d) IN
    OnSegment(b, c, d) <=> (IF b = c THEN d = b ELSE Dot3(u, w) >= 0 /\ Dot3(u, w) * Dot3(u, w) = Len2(u) * Len2(w))
\* a translated triangle passes a prism
Prism == LET t == <<a, b, c>>  n == <<Add3(a, d), Add3(b, d), Add3(c, d)>> IN Abs(Moved6(t, n)) = 3 * Abs(Det3(d, b, c))
\* the sum of parts does not depend on the starting corner when the shifts are equal
Cyclic == LET t == <<a, b, c>>  n == <<Add3(a, d), Add3(b, d), Add3(c, d)>>  r(s) == <<s[2], s[3], s[1]>> IN Moved6(t, n) = Moved6(r(t), r(n))
\* Coefficients of the layer: the rule of Simpson is exact for them (heights 0, W, 2 W in scale W).
Flat(p) == <<p[1], p[2], 0>>
Layer == LET v == <<a, Flat(b), Flat(c)>>
             u == <<<<d[1], d[2], W>>, <<c[3], -b[3], W>>, <<b[1] - c[3], d[3], W>>>>
             h == 2
             V12 == h * (A2(v, u, 0) + 4 * A2(v, u, h \div 2) + A2(v, u, h)) IN
    V12 = 6 * h * W * W * CoefA2(v) + 3 * h * h * W * CoefB4(v, u) + 2 * h * h * h * CoefC6(u)
=============================================================================
