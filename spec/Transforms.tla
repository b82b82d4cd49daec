---------------------------- MODULE Transforms ----------------------------
(***************************************************************************)
(* The grid modification interface as a state machine on abstract          *)
(* surfaces: histories of atomic transformations, of refused calls and of  *)
(* data updates.  TLC checks the surface invariants on the reachable       *)
(* states and prints the histories; the harness replays them in the code.  *)
(*                                                                         *)
(* Initial surfaces come from the JSON file named by INIT.                 *)
(***************************************************************************)
EXTENDS SurfaceOps, TLC, Json, IOUtils, Randomization

CONSTANTS MaxLen,      \* length of the histories
          Sim          \* in simulation the successors are sampled


Inits == JsonDeserialize(IOEnv.INIT)

VARIABLES surf,        \* current surface
          init,        \* index of the initial surface
          hist,        \* the history
          gone         \* points that have disappeared
vars == <<surf, init, hist, gone>>

\* A few elements of a set.
Some(n, S) == IF ~ Sim \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)

ToSurf(fs) == {FaceRec(fs[i].t, fs[i].d, fs[i].z) : i \in DOMAIN fs}

Init == /\ init \in DOMAIN Inits
        /\ surf = ToSurf(Inits[init])
        /\ hist = <<>> /\ gone = {}

\* Rational points of a segment and of a triangle that are lattice points.
Quarter(a, b) == IF (3*PX(a)+PX(b)) % 4 = 0 /\ (3*PY(a)+PY(b)) % 4 = 0 /\ (3*PZ(a)+PZ(b)) % 4 = 0
                 THEN {Pack((3*PX(a)+PX(b)) \div 4, (3*PY(a)+PY(b)) \div 4, (3*PZ(a)+PZ(b)) \div 4)} ELSE {}
Middle(a, b) == IF HasMid(a, b) THEN {Mid(a, b)} ELSE {}
OnEdge(a, b) == (Middle(a, b) \cup Quarter(a, b)) \ Points(surf)
Inside(t) == UNION {UNION {Quarter(t[i], m) \cup Middle(t[i], m) : m \in Middle(t[1 + (i % 3)], t[1 + ((i+1) % 3)])} : i \in 1..3} \ Points(surf)

Do(o, s) == /\ Len(hist) < MaxLen
            /\ hist' = Append(hist, o)
            /\ surf' = s
            /\ gone' = (gone \cup Points(surf)) \ Points(s)
            /\ UNCHANGED init

ADivide == \E f \in Some(2, surf) : \E p \in Some(1, Inside(f.t) \cup gone) :
                Do([op |-> "divide", t |-> f.t, p |-> p], Divide(surf, f, p))
InnerEdges == {e \in EdgesOf(surf) : Cardinality(Around(surf, e)) = 2}
ACut == \E e \in Some(2, InnerEdges) : \E a \in e : \E b \in e \ {a} : \E p \in Some(1, OnEdge(a, b) \cup gone) :
             Do([op |-> "cut", t |-> <<a, b>>, p |-> p], Cut(surf, a, b, p))
ACut1 == \E e \in Some(2, Border(surf)) : \E a \in e : \E b \in e \ {a} : \E p \in Some(1, OnEdge(a, b) \cup gone) :
              Do([op |-> "cut1", t |-> <<a, b>>, p |-> p], Cut(surf, a, b, p))
\* The first new point goes next to the edge's first end point (the harness orders the two points).
ACut2 == \E e \in Some(2, EdgesOf(surf)) : \E a \in e : \E b \in e \ {a} :
              \E p \in Quarter(a, b) \ Points(surf) : \E q \in Quarter(b, a) \ Points(surf) :
                p # q /\ Do([op |-> "cut2", t |-> <<a, b>>, p |-> p, q |-> q], Cut2(surf, a, b, p, q))
AFlip == \E f \in Some(5, surf) : \E e \in LongestSides(f) :
              /\ Cardinality(LongestSides(f)) = 1 /\ FlipLegal(surf, f, e)
              /\ Do([op |-> "flip", t |-> f.t], Flip(surf, f, e))
ACollapse == \E e \in Some(4, InnerEdges) : \E a \in e : \E b \in e \ {a} :
                  a < b /\ CollapseLegal(surf, a, b) /\ Do([op |-> "collapse", t |-> <<a, b>>], Collapse(surf, a, b))
ASet == \E f \in Some(2, surf) : LET d == 500 + Len(hist) IN
             Do([op |-> "setdata", t |-> f.t, p |-> d], (surf \ {f}) \cup {[f EXCEPT !.d = d]})
\* Calls that do not apply leave the grid as it is.
ARefuse ==
              \/ \E e \in Some(2, Border(surf)) : \E a \in e : \E b \in e \ {a} : \E o \in {"cut", "collapse"} : \E p \in Middle(a, b) :
                   a < b /\ Do([op |-> o, t |-> <<a, b>>, p |-> p], surf)
              \/ \E e \in Some(2, InnerEdges) : \E a \in e : \E b \in e \ {a} : \E p \in Middle(a, b) :
                   a < b /\ Do([op |-> "cut1", t |-> <<a, b>>, p |-> p], surf)
              \/ \E f \in Some(5, surf) : LongestSides(f) \subseteq Border(surf) /\ Do([op |-> "flip", t |-> f.t], surf)
Next == ADivide \/ ACut \/ ACut1 \/ ACut2 \/ AFlip \/ ACollapse \/ ASet \/ ARefuse
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the transformations guarantee by design.                           *)
(***************************************************************************)
Valid == Proper(surf) /\ Manifold(surf) /\ Oriented(surf)
EulerKept == Euler(surf) = Euler(ToSurf(Inits[init]))
BorderKept == \* only a border edge's cut and the collapse of an edge at the border change the border
    (\A i \in DOMAIN hist : hist[i].op \notin {"cut1", "cut2", "collapse"}) => Border(surf) = Border(ToSurf(Inits[init]))
\* a closed surface stays closed and its vector area stays zero
Closed == Border(ToSurf(Inits[init])) = {} => Border(surf) = {} /\ VArea(surf) = <<0, 0, 0>>
OnceEach == \A f, g \in surf : RangeOf(f.t) = RangeOf(g.t) => f = g

Emit == Len(hist) = MaxLen =>
           PrintT(ToJson([init |-> init, ops |-> hist]))
=============================================================================
