----------------------------- MODULE RemeshModel -----------------------------
(***************************************************************************)
(* Growth on a flat plate for all distributions of ice: the smoothing of   *)
(* heights only redistributes, uniform ice grows uniformly, nothing grows  *)
(* without ice, and the ice that is not grown yet is grown later.          *)
(***************************************************************************)
EXTENDS Remesh, TLC
CONSTANTS Top, Steps
VARIABLES m, h, k
vars == <<m, h, k>>
Pts == <<<<0,0,0>>, <<1,0,0>>, <<2,0,0>>, <<0,1,0>>, <<1,1,0>>, <<2,1,0>>>>
Faces == <<<<1,2,5>>, <<1,5,4>>, <<2,3,6>>, <<2,6,5>>>>
Init == /\ \E hi \in [1..4 -> 0..Top], hs \in 0..2, rd \in BOOLEAN, n \in 1..Steps :
             m = [pts |-> Pts, faces |-> Faces, hi |-> hi, hs |-> hs, redistr |-> rd, n |-> n, oz |-> FALSE, alfa |-> 2, beta |-> 8]
        /\ h = [f \in 1..4 |-> H * m.hi[f]] /\ k = 0
Next == k < 3 /\ h' = HSmooth(m, h) /\ k' = k + 1 /\ UNCHANGED m
Spec == Init /\ [][Next]_vars
Total(x) == SumOver(1..4, LAMBDA f : x[f])
Conserved == Total(h) = H * Total(m.hi)
NoNewExtremes == \A f \in 1..4 : h[f] <= H * MaxFn(m.hi) /\ h[f] >= 0
S == FlatShifts(m)
Uniform == (k = 0 /\ \A f \in 1..4 : m.hi[f] = m.hi[1]) => LET s == S IN \A p \in 1..6 : Abs(s[p] - H * m.hi[1]) <= 12
Bounded == k = 0 => LET s == S IN \A p \in 1..6 : s[p] >= 0 /\ s[p] <= (IF m.redistr THEN 2 ELSE 1) * H * MaxFn(m.hi) + 12
=============================================================================
