----------------------------- MODULE TraceLaws -----------------------------
EXTENDS Laws, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

\* got is the value times K (0..K rounding)
K == 1000
Linear(r) == \A i \in DOMAIN r.qs :
    LET q == r.qs[i]  v == Line(r.X, r.Y, q.p, q.q)  d == q.got * v[2] - K * v[1] IN
    /\ q.ok
    /\ d \in (-v[2])..v[2]
\* the law of a polynomial table is the polynomial, in all points
Exact(r) == \A i \in DOMAIN r.qs : LET q == r.qs[i] IN q.ok /\ q.got - K * Poly(r.c, q.x) \in (-2)..2
\* residuals are scaled by K; their moments vanish
Fit(r) == \A k \in 0..(r.n - 1) :
    Moment(r.X, r.R, k) \in (-r.tol)..r.tol
Const(r) == \A i \in DOMAIN r.qs : r.qs[i] = r.c
\* the built-in tables
Table(r) == r.lens[1] = r.lens[2] /\ r.lens[1] > 1 /\ Increasing(r.X) /\ r.through /\ r.between

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "linear" -> Clause(Linear(r), "LinearLaw")
      [] r.ev = "exact" -> Clause(Exact(r), "FuncLawExact")
      [] r.ev = "fit" -> Clause(Fit(r), "FuncLawFit")
      [] r.ev = "const" -> Clause(Const(r), "ConstLaw")
      [] r.ev = "table" -> Clause(Table(r), "Table")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
