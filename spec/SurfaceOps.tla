---------------------------- MODULE SurfaceOps ----------------------------
(***************************************************************************)
(* Atomic transformations of a surface, as functions on abstract surfaces. *)
(* New faces inherit orientation, data and zone of the face they replace.  *)
(***************************************************************************)
EXTENDS Mesh

\* Node a of a triple is replaced by b (the orientation stays).
Subst(t, a, b) == [i \in 1..3 |-> IF t[i] = a THEN b ELSE t[i]]
Like(f, t) == FaceRec(t, f.d, f.z)

Apex(f, e) == CHOOSE p \in RangeOf(f.t) : p \notin e

\* --- dividing a face by a point -------------------------------------------------------------
Divide(S, f, p) ==
    (S \ {f}) \cup {Like(f, Subst(f.t, f.t[i], p)) : i \in 1..3}

\* --- splitting an edge (border or inner) by a point -----------------------------------------
SplitFace(f, a, b, p) == {Like(f, Subst(f.t, a, p)), Like(f, Subst(f.t, b, p))}
Cut(S, a, b, p) ==
    LET fs == Around(S, {a, b}) IN (S \ fs) \cup UNION {SplitFace(f, a, b, p) : f \in fs}

\* --- splitting an edge by two points, p1 is next to a ------------------------------------------
SplitFace2(f, a, b, p1, p2) ==
    {Like(f, Subst(f.t, b, p1)), Like(f, Subst(Subst(f.t, a, p1), b, p2)), Like(f, Subst(f.t, a, p2))}
Cut2(S, a, b, p1, p2) ==
    LET fs == Around(S, {a, b}) IN (S \ fs) \cup UNION {SplitFace2(f, a, b, p1, p2) : f \in fs}

\* --- flipping the longest edge of a face; the new faces follow the flipped face -------------
LongestSides(f) == {e \in Sides(f) : \A x \in Sides(f) :
                        LET L(s) == LET a == CHOOSE a \in s : TRUE  b == CHOOSE b \in s : b # a IN Dist2(a, b)
                        IN L(e) >= L(x)}
OtherFace(S, f, e) == CHOOSE g \in Around(S, e) : g # f
FlipLegal(S, f, e) ==
    /\ Cardinality(Around(S, e)) = 2
    /\ {Apex(f, e), Apex(OtherFace(S, f, e), e)} \notin EdgesOf(S)
Flip(S, f, e) ==
    LET g == OtherFace(S, f, e)
        q == Apex(g, e)
    IN (S \ {f, g}) \cup {Like(f, Subst(f.t, x, q)) : x \in e}

\* --- collapsing an edge into its middle point -------------------------------------------------
LinkPoints(S, p) == UNION {RangeOf(f.t) : f \in Star(S, p)} \ {p}
\* Topologically valid collapse: the ends have no common neighbours besides the two apexes, the
\* edge is not a chord between two border points, no node loses all of its faces.
CollapseLegal(S, a, b) ==
    LET fs == Around(S, {a, b}) IN
    /\ Cardinality(fs) = 2
    /\ LinkPoints(S, a) \cap LinkPoints(S, b) = {Apex(f, {a, b}) : f \in fs}
    /\ ~ (a \in BorderPoints(S) /\ b \in BorderPoints(S))
    /\ \A f \in fs : \E g \in S \ fs : Apex(f, {a, b}) \in RangeOf(g.t)
    /\ (Star(S, a) \cup Star(S, b)) # fs
    /\ HasMid(a, b) /\ Mid(a, b) \notin Points(S)
    \* no two faces become one
    /\ LET m == Mid(a, b)
           rest == S \ fs
           img == {[n |-> RangeOf(Subst(Subst(f.t, a, m), b, m))] : f \in rest}
       IN Cardinality(img) = Cardinality({[n |-> RangeOf(f.t)] : f \in rest})
Collapse(S, a, b) ==
    LET fs == Around(S, {a, b})
        m == Mid(a, b)
    IN {Like(f, Subst(Subst(f.t, a, m), b, m)) : f \in S \ fs}
=============================================================================
