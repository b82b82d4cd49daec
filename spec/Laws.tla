-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of physical quantities over tables.  A table is a sequence of      *)
(* integers X, increasing, with values Y.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Increasing(X) == \A i \in 1..(Len(X) - 1) : X[i] < X[i + 1]
\* The part of the table for the point p/q.
Part(X, p, q) == CHOOSE i \in 1..(Len(X) - 1) : X[i] * q <= p /\ p <= X[i + 1] * q
\* The value of the broken line at p/q as <<numerator, denominator>>.
Line(X, Y, p, q) == LET i == Part(X, p, q) IN
    <<Y[i] * q * (X[i + 1] - X[i]) + (Y[i + 1] - Y[i]) * (p - X[i] * q), q * (X[i + 1] - X[i])>>

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
RECURSIVE Poly(_, _)
\* coefficients, the highest first
Poly(c, x) == IF c = <<>> THEN 0 ELSE Head(c) * Pow(x, Len(c) - 1) + Poly(Tail(c), x)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* A polynomial fits a table best when the residuals are orthogonal to the powers.
Moment(X, R, k) == Sum([i \in DOMAIN X |-> R[i] * Pow(X[i], k)])
=============================================================================
