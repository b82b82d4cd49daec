---------------------------- MODULE DecompShape ----------------------------
(***************************************************************************)
(* The shapes of the decompositions, over an abstract dual graph:          *)
(*   faces 1..N, Adj : set of two element sets of neighbour faces,         *)
(*   Cen : sequence of integer centres (the sums of the corner coordinates)*)
(* A decomposition is a sequence of zones [name, f] with f a set of faces. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Zoned(zs) == UNION {zs[i].f : i \in DOMAIN zs}
Disjoint(zs) == \A i, j \in DOMAIN zs : i # j => zs[i].f \cap zs[j].f = {}
Partition(zs, n) == Disjoint(zs) /\ Zoned(zs) = 1..n

\* n faces in c zones as even as possible, larger zones first (0-based zone number i).
EvenSize(n, c, i) == (n \div c) + (IF i < n % c THEN 1 ELSE 0)
RECURSIVE EvenStart(_, _, _)
EvenStart(n, c, i) == IF i = 0 THEN 0 ELSE EvenStart(n, c, i - 1) + EvenSize(n, c, i - 1)

LinearOk(zs, n, c) ==
    /\ Len(zs) = c
    /\ \A i \in 1..c : zs[i].f = (EvenStart(n, c, i-1) + 1) .. (EvenStart(n, c, i-1) + EvenSize(n, c, i-1))

\* The faces next to each face.
NbOf(F, Adj) == [x \in F |-> UNION {p \in Adj : x \in p} \ {x}]
\* Connected component of x in the graph induced by set F.
RECURSIVE Grow(_, _, _, _)
Grow(front, seen, F, nb) ==
    LET new == TLCEval(((UNION {nb[x] : x \in front}) \cap F) \ seen) IN IF new = {} THEN seen ELSE Grow(new, TLCEval(seen \cup new), F, nb)
CompOf(x, F, nb) == Grow({x}, {x}, F, nb)
RECURSIVE Comps(_, _)
Comps(F, nb) == IF F = {} THEN {} ELSE LET c == TLCEval(CompOf(CHOOSE x \in F : TRUE, F, nb)) IN {c} \cup Comps(TLCEval(F \ c), nb)

\* A zone takes whole components of the faces that are left, and a connected piece of at most one
\* more component.
PieceOk(Z, rest, nb) ==
    LET part == TLCEval({c \in Comps(rest, nb) : c \cap Z # {} /\ ~ (c \subseteq Z)}) IN
    /\ Cardinality(part) <= 1
    /\ \A c \in part : Cardinality(Comps(c \cap Z, nb)) = 1

FarhatOk(zs, free, c, Adj) ==      \* zs : the new zones only, free : the faces to distribute
    LET nb == TLCEval(NbOf(free, Adj)) IN
    /\ Len(zs) = c
    /\ \A i \in 1..c : /\ Cardinality(zs[i].f) = EvenSize(Cardinality(free), c, i - 1)
                       /\ PieceOk(zs[i].f, TLCEval(free \ UNION {zs[j].f : j \in 1..(i-1)}), nb)

(***************************************************************************)
(* Hierarchical bisection.                                                 *)
(***************************************************************************)
\* Median coordinate of the faces along an axis (upper median).
Blade(F, axis, Cen) ==
    LET fs == SetToSeq(F) IN SortSeq([i \in DOMAIN fs |-> Cen[fs[i]][axis]], LAMBDA a, b : a < b)[Cardinality(F) \div 2 + 1]
LeftOf(F, axis, Cen) == LET b == TLCEval(Blade(F, axis, Cen)) IN TLCEval({x \in F : Cen[x][axis] < b})
\* Pairs of neighbours on different sides.
CutOf(F, L, nb) == Cardinality(UNION {{<<x, y>> : y \in nb[x] \cap (F \ L)} : x \in L})
Lefts(F, Cen) == TLCEval([a \in 1..3 |-> LeftOf(F, a, Cen)])
BestAxes(F, Cen, nb) ==
    LET left == Lefts(F, Cen)
        ok == {a \in 1..3 : left[a] # {}}
        cut == TLCEval([a \in ok |-> CutOf(F, left[a], nb)]) IN
    {a \in ok : \A b \in ok : cut[a] <= cut[b]}

\* The set R of [name, f] records contains the bisection of F of the given depth.
RECURSIVE HierIn(_, _, _, _, _, _)
HierIn(R, F, name, depth, Cen, nb) ==
    LET best == IF depth = 0 \/ Cardinality(F) < 2 THEN {} ELSE TLCEval(BestAxes(F, Cen, nb)) IN
    IF best = {} THEN [name |-> name, f |-> F] \in R
    ELSE \E a \in best :
            LET L == LeftOf(F, a, Cen) IN
            /\ HierIn(R, L, name \o "l", depth - 1, Cen, nb)
            /\ HierIn(R, TLCEval(F \ L), name \o "r", depth - 1, Cen, nb)
HierOk(zs, free, levels, Cen, Adj) ==   \* zs : the new zones only
    HierIn({[name |-> zs[i].name, f |-> zs[i].f] : i \in DOMAIN zs}, free, "h", levels - 1, Cen, TLCEval(NbOf(free, Adj)))
=============================================================================
