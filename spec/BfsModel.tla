------------------------------ MODULE BfsModel ------------------------------
(* The walk algorithm over all graphs with N faces, all predicates, all starts. *)
EXTENDS Bfs, TLC
CONSTANT N
VARIABLES nb, sel, start, path, i, done
vars == <<nb, sel, start, path, i, done>>
V == 1..N
Pairs == {e \in SUBSET V : Cardinality(e) = 2}
Init == /\ \E E \in SUBSET Pairs : nb = [x \in V |-> {y \in V : {x, y} \in E}]
        /\ sel \in SUBSET V /\ start \in V
        /\ path = <<>> /\ i = 0 /\ done = FALSE
Left == sel \ RangeOfSeq(path)
\* begin with the start face or with any face that is left
Begin == /\ ~done /\ i = Len(path) /\ Left # {}
         /\ \E x \in Left : (path = <<>> /\ start \in sel => x = start) /\ path' = Append(path, x)
         /\ i' = i /\ UNCHANGED <<nb, sel, start, done>>
\* neighbours of the face at the head, in any order
Orders(S) == {q \in UNION {[1..n -> S] : n \in {Cardinality(S)}} : RangeOfSeq(q) = S}
Visit == /\ ~done /\ i < Len(path)
         /\ \E q \in Orders(nb[path[i+1]] \cap Left) : path' = path \o q
         /\ i' = i + 1 /\ UNCHANGED <<nb, sel, start, done>>
Finish == /\ ~done /\ i = Len(path) /\ Left = {} /\ done' = TRUE /\ UNCHANGED <<nb, sel, start, path, i>>
Next == Begin \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == done => WalkOk(path, nb, start, sel)
NoRepeat == Cardinality(RangeOfSeq(path)) = Len(path)
Ends == <>done
=============================================================================
