-------------------------------- MODULE Bfs --------------------------------
(***************************************************************************)
(* Breadth first walk over the faces that satisfy a predicate: the queue   *)
(* algorithm as a state machine over every small graph, and the            *)
(* declarative description of its result (WalkOk) that recorded walks of   *)
(* the code are checked against.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOfSeq(s) == {s[i] : i \in DOMAIN s}
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

\* nb : face -> set of neighbour faces.  Position of the earliest visited neighbour (0 : none before).
Parent(path, nb, i) ==
    LET ps == {j \in 1..(i-1) : path[j] \in nb[path[i]]} IN
    IF ps = {} THEN 0 ELSE CHOOSE j \in ps : \A k \in ps : j <= k

\* path visits every face of sel once, component by component, in breadth first order.
WalkOk(path, nb, start, sel) ==
    LET par == TLCEval([i \in 1..Len(path) |-> Parent(path, nb, i)])
        roots == {i \in 1..Len(path) : par[i] = 0}
        \* the walk of one component starts with a root; it is complete before the next root
        seg(i) == CHOOSE r \in roots : r <= i /\ \A q \in roots : q <= i => q <= r
    IN /\ RangeOfSeq(path) = sel /\ Cardinality(sel) = Len(path)
       /\ (start \in sel => Len(path) > 0 /\ path[1] = start)
       /\ \A i \in 1..Len(path) : par[i] # 0 => par[i] >= seg(i)
       \* first in, first out
       /\ \A i \in 1..(Len(path) - 1) : (par[i] # 0 /\ par[i+1] # 0) => par[i] <= par[i+1]

RECURSIVE Reach(_, _, _, _)
Reach(front, seen, nb, sel) ==
    LET new == ((UNION {nb[x] : x \in front}) \cap sel) \ seen IN
    IF new = {} THEN seen ELSE Reach(new, seen \cup new, nb, sel)

\* walk of one component
ComponentOk(path, nb, start, sel) ==
    IF start \notin sel THEN path = <<>>
    ELSE WalkOk(path, nb, start, Reach({start}, {start}, nb, sel))
=============================================================================
