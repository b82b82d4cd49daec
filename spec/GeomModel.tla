----------------------------- MODULE GeomModel -----------------------------
(***************************************************************************)
(* The geometric oracle checked against independent formulations on all    *)
(* triangles and segments of a small lattice.                              *)
(***************************************************************************)
EXTENDS Geom3, TLC
CONSTANTS Max,       \* the lattice 0..Max
          OneCorner  \* only triangles with a vertex at the origin
Pt == (0..Max) \X (0..Max) \X (0..Max)
VARIABLES t, s
vars == <<t, s>>
Init == /\ t \in {x \in (IF OneCorner THEN {Zero3} ELSE Pt) \X Pt \X Pt : ~ Degenerate(x)}
        /\ s = <<>>
Next == /\ s = <<>> /\ UNCHANGED t
        /\ s' \in {x \in Pt \X Pt : x[1] # x[2]}
Spec == Init /\ [][Next]_vars

\* Sides of the plane and of the three planes through an end of the segment and the sides.
Vol(a, b, c, d) == Det3(Sub3(b, a), Sub3(c, a), Sub3(d, a))
CrossBySides ==
    LET p == s[1]  q == s[2]
        x == Vol(t[1], t[2], t[3], p)  y == Vol(t[1], t[2], t[3], q)
        e(i) == Vol(p, q, t[i], t[1 + (i % 3)]) IN
    /\ x * y < 0
    /\ \/ e(1) > 0 /\ e(2) > 0 /\ e(3) > 0
       \/ e(1) < 0 /\ e(2) < 0 /\ e(3) < 0
Agree == s # <<>> =>
    LET r == SegTri(t, s) IN
    /\ (r.c = "cross") <=> CrossBySides
    \* the class does not depend on orientation, order of vertices and direction
    /\ r.c = SegTri(<<t[2], t[3], t[1]>>, s).c
    /\ r.c = SegTri(<<t[2], t[1], t[3]>>, <<s[2], s[1]>>).c
    \* an end in the triangle is a common point, separated boxes have none
    /\ (PointClass(t, s[1]) > 0 => r.c # "miss")
    /\ (r.c # "miss" => BoxesMeet(BoxOf({t[1], t[2], t[3]}), BoxOf({s[1], s[2]})))
    /\ (r.c = "over" => InPlane(t, s[1]) /\ InPlane(t, s[2]) /\ QLt(r.at[1], r.at[2]))
    /\ (\A k \in 1..3 : PointClass(t, t[k]) = 1)
=============================================================================
