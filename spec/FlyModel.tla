------------------------------ MODULE FlyModel ------------------------------
(***************************************************************************)
(* Flights through a small space past one or two triangles, and flights    *)
(* from the inside of a closed surface.                                    *)
(***************************************************************************)
EXTENDS Fly, TLC, Json, Randomization
CONSTANTS Closed,   \* fly inside a closed surface
          Some      \* 0 - all flights, otherwise that many, printed when finished
VARIABLES f, p, n, o, face
vars == <<f, p, n, o, face>>

C2 == (0..2) \X (0..2) \X (0..2)
Tris == {<<<<0,0,0>>, <<2,0,0>>, <<0,2,0>>>>, <<<<0,0,1>>, <<0,2,1>>, <<2,0,1>>>>, <<<<1,0,0>>, <<1,2,0>>, <<1,0,2>>>>,
         <<<<0,0,0>>, <<2,1,0>>, <<1,2,2>>>>, <<<<2,0,0>>, <<2,2,0>>, <<0,2,1>>>>, <<<<0,0,2>>, <<1,0,1>>, <<1,1,2>>>>}
\* a closed octahedron around <<3, 3, 3>>
OctV(i) == <<<<6,3,3>>, <<0,3,3>>, <<3,6,3>>, <<3,0,3>>, <<3,3,6>>, <<3,3,0>>>>[i]
Oct == [k \in 1..8 |-> LET x == (k - 1) % 2  y == ((k - 1) \div 2) % 2  z == (k - 1) \div 4 IN <<OctV(1 + x), OctV(3 + y), OctV(5 + z)>>]
Airs == {<<<<0,0,0>>, <<2,2,2>>>>, <<<<2,0,0>>, <<0,1,1>>, <<1,1,0>>>>, <<<<1,1,1>>>>}
V1 == {-1, 0, 1} \X {-1, 0, 1} \X {-1, 0, 1}
Flights ==
    IF Closed
    THEN {[tris |-> Oct, air |-> <<Zero3, <<6,6,6>>>>, start |-> s, v |-> v, max |-> 9] :
            s \in {x \in (2..4) \X (2..4) \X (2..4) : Abs(x[1] - 3) + Abs(x[2] - 3) + Abs(x[3] - 3) < 3},
            v \in {x \in (-2..2) \X (-2..2) \X (-2..2) : x # Zero3}}
    ELSE {[tris |-> ts, air |-> a, start |-> s, v |-> v, max |-> m] :
            ts \in {<<x, y>> : x, y \in Tris}, a \in Airs, s \in {<<0,0,0>>, <<0,1,2>>, <<1,1,1>>, <<2,1,0>>, <<2,2,2>>}, v \in V1, m \in {0, 2, 4}}
Init == f \in (IF Some = 0 THEN Flights ELSE RandomSubset(Some, Flights)) /\ p = f.start /\ n = 1 /\ o = "" /\ face = 0
Stop == /\ o = "" /\ Decide(f, p, n) # "go"
        /\ o' = Decide(f, p, n) /\ UNCHANGED <<f, p, n, face>>
Hop == /\ o = "" /\ Decide(f, p, n) = "go"
       /\ p' = Add3(p, f.v) /\ n' = n + 1 /\ UNCHANGED f
       /\ \/ o' = "C" /\ face' \in MayHit(f, p, p')
          \/ ~ MustHit(f, p, p') /\ UNCHANGED <<o, face>>
Next == Stop \/ Hop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The transition system and the description of complete flights agree.
Agree == o # "" => FlightOk(f, n, o, face)
OnlyOk == o # "" => \A x \in {"N", "O", "S"} : (FlightOk(f, n, x, 0) /\ face = 0) => x = o
Bound == n <= f.max + 1 \/ n = 1
\* Nothing leaves a closed surface through the interiors of its triangles: the way out always touches it.
Inside(x) == Abs(x[1] - 3) + Abs(x[2] - 3) + Abs(x[3] - 3) < 3
Beyond(x) == Abs(x[1] - 3) + Abs(x[2] - 3) + Abs(x[3] - 3) > 3
Contained == (Closed /\ n > 1) =>
    (Inside(Sub3(p, f.v)) /\ Beyond(p) => MayHit(f, Sub3(p, f.v), p) # {})
ContainedStrict == (Closed /\ n > 1) => (Inside(Sub3(p, f.v)) /\ Inside(p) => MayHit(f, Sub3(p, f.v), p) = {})
Ends == <>(o # "")
Shown == Some = 0 \/ o = "" \/ PrintT(ToJson([f |-> f, n |-> n, o |-> o, face |-> face]))
=============================================================================
