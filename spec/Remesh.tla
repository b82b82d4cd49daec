------------------------------- MODULE Remesh -------------------------------
(***************************************************************************)
(* Growth of ice on a surface.                                             *)
(*                                                                         *)
(* A case m has pts (integer points), faces (triples of point numbers), hi *)
(* (integer height of ice per face) and the options n (number of steps),   *)
(* hs (steps of heights smoothing, with the coefficients 1/alfa and        *)
(* 1/beta), redistr, ns (steps of smoothing of directions, with the        *)
(* coefficients nsS and nsK/100), nss (steps of null-space smoothing with  *)
(* the coefficient 1/st and the threshold eps/100), fixb (border points    *)
(* are fixed), oz (pseudo 2d).                                             *)
(***************************************************************************)
EXTENDS Geom3, TLC

FacesAt(m, p) == {f \in DOMAIN m.faces : \E c \in 1..3 : m.faces[f][c] = p}
Tri(m, f) == <<m.pts[m.faces[f][1]], m.pts[m.faces[f][2]], m.pts[m.faces[f][3]]>>
NormalOf(m, f) == Normal(Tri(m, f))
SumOver(S, F(_)) ==
    LET RECURSIVE Go(_)
        Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN F(x) + Go(T \ {x}) IN Go(S)
SumVec(S, F(_)) ==
    LET RECURSIVE Go(_)
        Go(T) == IF T = {} THEN Zero3 ELSE LET x == CHOOSE y \in T : TRUE IN Add3(F(x), Go(T \ {x})) IN Go(S)
MeanOver(S, F(_)) == SumOver(S, F) \div Cardinality(S)
CommonPts(m, f, g) == {m.faces[f][c] : c \in 1..3} \cap {m.faces[g][c] : c \in 1..3}
Neighbours(m, f) == {g \in DOMAIN m.faces : g # f /\ Cardinality(CommonPts(m, f, g)) = 2}

(***************************************************************************)
(* Flat surfaces: all points move along the common normal, only heights    *)
(* matter.  Heights are scaled by H.                                       *)
(***************************************************************************)
H == 10000
MaxFn(h) == CHOOSE x \in {h[f] : f \in DOMAIN h} : \A f \in DOMAIN h : h[f] <= x
Least(a, b) == IF a < b THEN a ELSE b
\* Areas of faces of a plane are as the components of their normals.
PlaneAxis(m) == CHOOSE i \in 1..3 : NormalOf(m, 1)[i] # 0
AreaIn(m, f) == Abs(NormalOf(m, f)[PlaneAxis(m)])
\* One step of the smoothing of heights: between two neighbours flows a part of the volume above
\* the lower one, limited by a part of the greatest height.
Flow(m, h, f, g) ==
    IF h[f] >= h[g] THEN -(Least(h[f] - h[g], MaxFn(h) \div m.alfa) \div m.beta)
    ELSE (Least(h[g] - h[f], MaxFn(h) \div m.alfa) * AreaIn(m, g)) \div (m.beta * AreaIn(m, f))
HSmooth(m, h) == TLCEval([f \in DOMAIN h |-> h[f] + SumOver(Neighbours(m, f), LAMBDA g : Flow(m, h, f, g))])
RECURSIVE HSmooths(_, _, _)
HSmooths(m, h, k) == IF k = 0 THEN h ELSE HSmooths(m, HSmooth(m, h), k - 1)
\* Shifts of points from heights in faces.
Shifts(m, h) == TLCEval([p \in DOMAIN m.pts |-> MeanOver(FacesAt(m, p), LAMBDA f : h[f])])
\* k steps remain, rest : heights still to be grown, sh : shifts so far.
RECURSIVE Grow(_, _, _, _)
Grow(m, k, rest, sh) ==
    IF k = 0 THEN sh
    ELSE LET h == HSmooths(m, TLCEval([f \in DOMAIN rest |-> rest[f] \div k]), m.hs)
             s == Shifts(m, h)
             left(f) == IF m.redistr THEN rest[f] - (s[m.faces[f][1]] + s[m.faces[f][2]] + s[m.faces[f][3]]) \div 3
                        ELSE rest[f] - rest[f] \div k IN
         Grow(m, k - 1, TLCEval([f \in DOMAIN rest |-> IF m.redistr /\ left(f) < 0 THEN 0 ELSE left(f)]), TLCEval([p \in DOMAIN sh |-> sh[p] + s[p]]))
FlatShifts(m) == Grow(m, m.n, [f \in DOMAIN m.faces |-> H * m.hi[f]], [p \in DOMAIN m.pts |-> 0])
(***************************************************************************)
(* The number of steps.  In one step the ice grows less than the given     *)
(* part fp/fq of the least side of a face (heights are in the same units); *)
(* a part pp/pq of faces may be ignored.                                   *)
(***************************************************************************)
MinSide2(m, f) == LET t == Tri(m, f)  d(a, b) == Dot3(Sub3(a, b), Sub3(a, b)) IN
    Least(d(t[1], t[2]), Least(d(t[2], t[3]), d(t[3], t[1])))
TooFast(m, s, n) == {f \in DOMAIN m.faces : m.hi[f] * m.hi[f] * s.fq * s.fq >= n * n * s.fp * s.fp * MinSide2(m, f)}
StepsRule(m, s, n) ==
    /\ n >= s.min /\ n <= s.max
    /\ n = s.max \/ Cardinality(TooFast(m, s, n)) * s.pq <= Len(m.faces) * s.pp

\* In the pseudo 2d mode points of a column along z follow its middle point.
Column(m, p) == {q \in DOMAIN m.pts : m.pts[q][1] = m.pts[p][1] /\ m.pts[q][2] = m.pts[p][2]}
MiddleOf(m, p) == LET c == Column(m, p) IN
    CHOOSE q \in c : Cardinality({r \in c : m.pts[r][3] < m.pts[q][3]}) = Cardinality(c) \div 2
FlatShift(m, sh, p) == IF m.oz THEN sh[MiddleOf(m, p)] ELSE sh[p]

(***************************************************************************)
(* Surfaces of any shape, one step.  Directions and lengths are scaled by  *)
(* U; heights of ice are given in parts 1/U of the unit of length.         *)
(***************************************************************************)
U == 1000
RECURSIVE NewtonR(_, _)
NewtonR(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE NewtonR(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE NewtonR(n, n)
DivT(x, m) == IF x < 0 THEN -((-x) \div m) ELSE x \div m
UnitOf(v, scale) == LET l == Isqrt(Dot3(v, v) * scale * scale) IN [i \in 1..3 |-> DivT(v[i] * U * scale, l)]
\* unit normals, directions of growth of points
UN(m) == TLCEval([f \in DOMAIN m.faces |-> UnitOf(NormalOf(m, f), 100)])
Dirs(m, un) == TLCEval([p \in DOMAIN m.pts |-> UnitOf(SumVec(FacesAt(m, p), LAMBDA f : un[f]), 1)])

\* Smoothing of directions, scaled by V: every face takes the mean of the directions at its points,
\* more weight has a direction that is far from its own; every point takes the mean of the
\* directions of its faces, small ones weigh more.
V == 10000
UnitV(v, scale) == LET l == Isqrt(Dot3(v, v) * scale * scale) IN [i \in 1..3 |-> DivT(v[i] * V * scale, l)]
UNV(m) == TLCEval([f \in DOMAIN m.faces |-> UnitV(NormalOf(m, f), 100)])
DirsV(m, un) == TLCEval([p \in DOMAIN m.pts |->
    LET s == SumVec(FacesAt(m, p), LAMBDA f : un[f]) IN UnitV([i \in 1..3 |-> DivT(s[i], 4)], 1)])
Greatest(a, b) == IF a > b THEN a ELSE b
WMean(S, W(_), D(_)) == LET w == SumOver(S, W)  v == SumVec(S, LAMBDA x : Mul3(W(x), D(x))) IN [i \in 1..3 |-> DivT(v[i], w)]
RECURSIVE SmoothedV(_, _, _, _)
SmoothedV(m, fd, nd, k) ==
    IF k = 0 THEN nd
    ELSE LET fd2 == TLCEval([f \in DOMAIN m.faces |->
                 WMean(1..3, LAMBDA c : Greatest(m.nsS * (V - Dot3(fd[f], nd[m.faces[f][c]]) \div V), m.nsK * (V \div 100)) \div 10,
                             LAMBDA c : nd[m.faces[f][c]])])
             nd2 == TLCEval([p \in DOMAIN m.pts |->
                 WMean(FacesAt(m, p), LAMBDA f : Isqrt(400000000 \div Dot3(NormalOf(m, f), NormalOf(m, f))), LAMBDA f : fd2[f])]) IN
         SmoothedV(m, fd2, nd2, k - 1)
\* Directions of growth at points
GrowDirs(m, un) ==
    IF m.ns = 0 THEN Dirs(m, un)
    ELSE LET u == UNV(m)  d == SmoothedV(m, u, DirsV(m, u), m.ns) IN
         TLCEval([p \in DOMAIN m.pts |-> [i \in 1..3 |-> DivT(d[p][i], V \div U)]])
\* The height x of the prism over the face f with the volume a hi:  a x + b x x = a hi,
\* where its points move along the directions of growth u.
FaceHeight(m, un, dirs, f) ==
    LET t == Tri(m, f)  n == un[f]
        u(c) == LET d == dirs[m.faces[f][c]]  q == Dot3(n, d) \div U IN [i \in 1..3 |-> DivT(d[i] * U, q)]
        u21 == Sub3(u(2), u(1))  u31 == Sub3(u(3), u(1))
        v21 == Sub3(t[2], t[1])  v31 == Sub3(t[3], t[1])
        w == Add3(Cross3(v21, u31), Cross3(u21, v31))
        b == DivT(Dot3([i \in 1..3 |-> DivT(w[i], 10)], n), 400)        \* b U
        a == Isqrt(Dot3(Normal(t), Normal(t)) * 10000) * 5              \* a U
        RECURSIVE It(_, _)
        It(x, k) == IF k = 0 THEN x
                      ELSE LET d == a + DivT(b * x, U) IN
                           IF d * 4 < a THEN 4 * m.hi[f]              \* there is no such height
                           ELSE It((m.hi[f] * a) \div d, k - 1) IN
    It(m.hi[f], 12)
\* Expected displacements of points, scaled by U.
CurvedShifts(m) ==
    LET un == UN(m)  dirs == GrowDirs(m, un)
        h == TLCEval([f \in DOMAIN m.faces |-> FaceHeight(m, un, dirs, f)]) IN
    TLCEval([p \in DOMAIN m.pts |->
        LET s == SumOver(FacesAt(m, p), LAMBDA f : h[f])  k == Cardinality(FacesAt(m, p)) IN
        [i \in 1..3 |-> DivT(dirs[p][i] * s, U * k)]])

(***************************************************************************)
(* Null-space smoothing: a point moves by a part 1/st of the way to the    *)
(* mean centroid of its faces, in the directions in which the surface is   *)
(* flat around it: no faces, or few of them by area, look there.           *)
(* Faces lie in planes of axes, or in one plane.                           *)
(***************************************************************************)
OnBorder(m, p) == \E f \in FacesAt(m, p) : \E q \in {m.faces[f][c] : c \in 1..3} \ {p} :
    Cardinality({g \in FacesAt(m, p) : \E c \in 1..3 : m.faces[g][c] = q}) = 1
FlatAll(m) == \A f, g \in DOMAIN m.faces : Cross3(NormalOf(m, f), NormalOf(m, g)) = Zero3
\* areas of the faces at the point that look along the axis; the axes along which it does not move
LookArea(m, p, i) == SumOver({f \in FacesAt(m, p) : NormalOf(m, f)[i] # 0}, LAMBDA f : Abs(NormalOf(m, f)[i]))
NAxes(m, p) == LET a == [i \in 1..3 |-> LookArea(m, p, i)] IN {i \in 1..3 : a[i] * 100 > m.eps * MaxFn(a)}
\* pos : positions scaled by K
Relax(m, pos) == TLCEval([p \in DOMAIN pos |->
    IF m.fixb /\ OnBorder(m, p) THEN pos[p]
    ELSE LET fs == FacesAt(m, p)  k == Cardinality(fs)
             s == SumVec(fs, LAMBDA f : Add3(pos[m.faces[f][1]], Add3(pos[m.faces[f][2]], pos[m.faces[f][3]])))
             lap == [i \in 1..3 |-> DivT(s[i] - 3 * k * pos[p][i], 3 * k * m.st)]
             ax == IF FlatAll(m) THEN {} ELSE NAxes(m, p) IN
         [i \in 1..3 |-> IF i \in ax THEN pos[p][i] ELSE pos[p][i] + lap[i]]])
RECURSIVE Relaxed(_, _, _)
Relaxed(m, pos, k) == IF k = 0 THEN pos ELSE Relaxed(m, Relax(m, pos), k - 1)
\* In the pseudo 2d mode columns are straight again after each step, their points keep z.
Straight(m, pos) ==
    IF m.oz THEN TLCEval([p \in DOMAIN pos |-> LET q == MiddleOf(m, p) IN
        IF q = p THEN pos[p] ELSE <<pos[q][1], pos[q][2], K * m.pts[p][3]>>])
    ELSE pos
RECURSIVE StepsOfRelax(_, _, _)
StepsOfRelax(m, pos, n) == IF n = 0 THEN pos ELSE StepsOfRelax(m, Straight(m, Relaxed(m, pos, m.nss)), n - 1)
=============================================================================
