------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* What the converters mean.                                               *)
(*                                                                         *)
(* ANSYS: three files with the same zones of quads and with values at      *)
(* nodes; chosen zones become zones of triangles with values at faces.     *)
(* A node: x - coordinates, flux, ts, tau (fensap), beta (drop3d),         *)
(* a - temperature of the adiabatic case.                                  *)
(*                                                                         *)
(* Lazurit: blocks of i x j points and (i-1) x (j-1) cells with 8 values,  *)
(* i runs faster; blocks become zones of triangles, two for a cell.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Concat(ss) == LET RECURSIVE Go(_)
                  Go(k) == IF k = 0 THEN <<>> ELSE Go(k - 1) \o ss[k]
              IN Go(Len(ss))
Rng(s) == {s[i] : i \in DOMAIN s}
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Abs(x) == IF x < 0 THEN -x ELSE x
DivT(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))

--------------------------------- (* ANSYS *) --------------------------------
Turn(q) == <<q[4], q[3], q[2], q[1]>>
\* The corners of a quad in order, each once.
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>>
           ELSE LET h == Once(SubSeq(s, 1, Len(s) - 1))  x == s[Len(s)] IN
                IF x \in Rng(h) THEN h ELSE Append(h, x)
QuadTris(q, reversed) ==
    LET c == Once(IF reversed THEN Turn(q) ELSE q) IN
    IF Len(c) = 4 THEN << <<c[1], c[2], c[3]>>, <<c[1], c[3], c[4]>> >> ELSE <<c>>

\* k = 2 cp / v^2
Recovery(nd, o) == DivT((nd.a - o.tair) * 2 * o.cp, o.v * o.v)
Htc(nd) == DivT(-nd.flux, nd.ts - nd.a)
AnsysVars == <<"HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor">>
NodeValues(nd, o) == <<Htc(nd), nd.beta, nd.tau[1], nd.tau[2], nd.tau[3], Recovery(nd, o)>>
\* A face: its corners and its values, three times.
AnsysFace(z, t, o) ==
    LET v == [k \in 1..3 |-> NodeValues(z.nodes[t[k]], o)] IN
    [x |-> [k \in 1..3 |-> z.nodes[t[k]].x], d |-> [i \in 1..6 |-> v[1][i] + v[2][i] + v[3][i]]]
AnsysZone(z, o) ==
    LET ts == Concat([i \in DOMAIN z.quads |-> QuadTris(z.quads[i], o.reversed)]) IN
    [name |-> z.name, faces |-> [i \in DOMAIN ts |-> AnsysFace(z, ts[i], o)]]
AnsysGrid(zs, o) ==
    LET take == SelectSeq(zs, LAMBDA z : z.name \in Rng(o.zones)) IN
    [i \in DOMAIN take |-> AnsysZone(take[i], o)]

-------------------------------- (* Lazurit *) -------------------------------
LazVars == <<"T", "Hw", "Hi", "HTC", "Beta", "TauX", "TauY", "TauZ">>
\* Numbers of points of the two triangles of the cell (i, j), from zero.
CellTris(n, i, j) ==
    LET p(di, dj) == i + di + (j + dj) * n + 1 IN
    << <<p(0, 0), p(0, 1), p(1, 1)>>, <<p(0, 0), p(1, 1), p(1, 0)>> >>
\* Cells in the order of the file.
Cell(n, c) == <<(c - 1) % (n - 1), (c - 1) \div (n - 1)>>
BlockTris(n, m) == Concat([c \in 1..((n-1) * (m-1)) |-> CellTris(n, Cell(n, c)[1], Cell(n, c)[2])])
LazZone(b) ==
    LET ts == BlockTris(b.i, b.j) IN
    [name |-> b.name,
     faces |-> [k \in DOMAIN ts |->
        LET c == (k + 1) \div 2 IN
        [x |-> [q \in 1..3 |-> b.pts[ts[k][q]]],
         d |-> [v \in 1..8 |-> IF v > 5 THEN -b.d[v][c] ELSE b.d[v][c]]]]]
\* Order of names, as sequences of codes of characters.
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))
LazGrid(bs) ==
    LET rank(b) == 1 + Cardinality({c \in DOMAIN bs : LexLess(bs[c].key, b.key)})
        at(k) == CHOOSE c \in DOMAIN bs : rank(bs[c]) = k IN
    [k \in DOMAIN bs |-> LazZone(bs[at(k)])]

------------------------------- (* comparison *) -----------------------------
Rotations(s) == {s, <<s[2], s[3], s[1]>>, <<s[3], s[1], s[2]>>}
SameFaces(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : a[i].d = b[i].d /\ a[i].x \in Rotations(b[i].x)
SameZones(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : a[i].name = b[i].name /\ SameFaces(a[i].faces, b[i].faces)
=============================================================================
