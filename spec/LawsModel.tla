----------------------------- MODULE LawsModel -----------------------------
(***************************************************************************)
(* The broken line goes through the points of the table, has no other      *)
(* extremes and does not depend on the choice of the part in a common      *)
(* point; orthogonal residuals characterise the best fit.                  *)
(***************************************************************************)
EXTENDS Laws, TLC
CONSTANTS Top
VARIABLES Y, p
vars == <<Y, p>>
X == <<0, 1, 3, 4>>
Q == 3
Init == Y \in [1..4 -> 0..Top] /\ p \in 0..(4 * Q)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
At(i) == Line(X, Y, X[i] * Q, Q)
Through == \A i \in 1..4 : At(i)[1] = Y[i] * At(i)[2]
NoExtremes == LET i == Part(X, p, Q)  v == Line(X, Y, p, Q)  lo == IF Y[i] < Y[i+1] THEN Y[i] ELSE Y[i+1]  hi == Y[i] + Y[i+1] - lo IN
    lo * v[2] <= v[1] /\ v[1] <= hi * v[2]
\* Lines a x + b over the table: the sum of squared residuals is least exactly when both moments vanish (coefficients in 1/D).
D == 40
Res(a, b) == [i \in 1..4 |-> a * X[i] + b - D * Y[i]]
Sq(a, b) == Sum([i \in 1..4 |-> Res(a, b)[i] * Res(a, b)[i]])
n == 4
Sx == Sum(X)
Sxx == Sum([i \in 1..4 |-> X[i] * X[i]])
Sy == Sum(Y)
Sxy == Sum([i \in 1..4 |-> X[i] * Y[i]])
\* n Sxx - Sx Sx = 40 = D, so the best coefficients are integers in these units
Best == LET a == n * Sxy - Sx * Sy  b == Sxx * Sy - Sx * Sxy IN
    /\ n * Sxx - Sx * Sx = D
    /\ Moment(X, Res(a, b), 0) = 0 /\ Moment(X, Res(a, b), 1) = 0
    /\ \A da, db \in -2..2 : Sq(a, b) <= Sq(a + da, b + db)
=============================================================================
