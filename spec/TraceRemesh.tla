---------------------------- MODULE TraceRemesh ----------------------------
(***************************************************************************)
(* Runs of the remesh tool.  m : the case; out : the grid written:         *)
(* disp[f][c] - displacement of the corner c of the face f, tok[f][c] -    *)
(* exact token of its new position, was[f][c] - of the old one.            *)
(***************************************************************************)
EXTENDS Remesh, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Corners(r) == {<<f, c>> : f \in DOMAIN r.m.faces, c \in 1..3}
At(x, fc) == x[fc[1]][fc[2]]
NearV(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol
\* A point is moved once, wherever it is listed.
OnePlace(r) == \A x, y \in Corners(r) : At(r.m.faces, x) = At(r.m.faces, y) => At(r.out.tok, x) = At(r.out.tok, y)

\* hi is in units of the displacement / H
Flat(r) ==
    LET m == r.m  sh == FlatShifts(m)  un == UN(m)[1]
        axis == \E i \in 1..3 : Abs(un[i]) = U IN
    \A x \in Corners(r) :
        LET p == At(m.faces, x)  s == FlatShift(m, sh, p) IN
        NearV(At(r.out.disp, x), [i \in 1..3 |-> IF un[i] = U THEN s ELSE IF un[i] = -U THEN -s ELSE DivT(un[i] * (s \div 10), U \div 10)],
              8 * m.n * (m.hs + 1) + 4 + IF axis THEN 0 ELSE s \div 300 + 20)
Curved(r) ==
    LET m == r.m  un == UN(m)  dirs == GrowDirs(m, un)
        sum(p) == SumVec(FacesAt(m, p), LAMBDA f : un[f])
        good(f) == \A c \in 1..3 : LET p == m.faces[f][c] IN
            /\ Dot3(sum(p), sum(p)) > 250000
            /\ Dot3(dirs[p], un[f]) > 300000
        okf == TLCEval({f \in DOMAIN m.faces : good(f)})
        \* the volume is not too great for the quadratic equation
        h == TLCEval([f \in DOMAIN m.faces |-> IF f \in okf THEN FaceHeight(m, un, dirs, f) ELSE -1])
        ok(f) == f \in okf /\ h[f] * 2 >= m.hi[f] /\ h[f] <= m.hi[f] + m.hi[f] \div 4
        cs == IF okf = DOMAIN m.faces THEN CurvedShifts(m) ELSE <<>>
        want(p) == IF cs # <<>> THEN cs[p]
                   ELSE LET s == SumOver(FacesAt(m, p), LAMBDA f : h[f])  k == Cardinality(FacesAt(m, p)) IN
                        [i \in 1..3 |-> DivT(dirs[p][i] * s, U * k)] IN
    \A x \in Corners(r) :
        LET p == At(m.faces, x) IN
        (\A f \in FacesAt(m, p) : ok(f)) =>
            LET w == want(p) IN NearV(At(r.out.disp, x), w, 4 + (Abs(w[1]) + Abs(w[2]) + Abs(w[3])) \div 60)
Zero(r) == \A x \in Corners(r) : At(r.out.tok, x) = At(r.was, x)
NullSpace(r) ==
    LET m == r.m
        pos == StepsOfRelax(m, [p \in DOMAIN m.pts |-> Mul3(K, m.pts[p])], m.n)
        s == r.grow  un == UN(m)[1]          \* the plane itself moves as a whole
        up == IF s = 0 THEN Zero3 ELSE [i \in 1..3 |-> IF Abs(un[i]) = U THEN s * (un[i] \div U) ELSE DivT(un[i] * s, U)]
        tol == IF s = 0 \/ \E i \in 1..3 : Abs(un[i]) = U THEN 0 ELSE s \div 300 + 20 IN
    \A x \in Corners(r) : LET p == At(m.faces, x) IN
        NearV(At(r.out.disp, x), Add3(up, Sub3(pos[p], Mul3(K, m.pts[p]))), 6 * m.nss * m.n + tol)

Grown(r) == CASE r.kind = "flat" -> Flat(r)
              [] r.kind = "curved" -> Curved(r)
              [] r.kind = "zero" -> Zero(r)
              [] r.kind = "nss" -> NullSpace(r)
Kept(r) ==
    /\ r.out.title = r.title
    /\ r.out.vars = r.vars
    /\ r.out.zones = r.zones
    /\ r.out.other = r.other
    /\ Len(r.out.tok) = Len(r.m.faces)
\* Intermediate grids are written on demand, one per step; the last one is the result.
Intermediate(r) ==
    IF r.verbose THEN /\ r.inter \in r.nmin..r.nmax
                      /\ r.inter >= 1 /\ (r.kind # "zero" /\ r.exact => r.inter = r.m.n)
                      /\ r.last = r.out.tok
                      /\ r.steps.known => StepsRule(r.m, r.steps, r.inter)
    ELSE r.inter = 0
\* Names of written files: the mark of a result is removed from the name.
OutName(s) == s.stem \o "_" \o s.rest
Files(r) == {r.files[i] : i \in DOMAIN r.files} = {OutName(r.names[i]) : i \in DOMAIN r.names}

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadGrid(r) ==
    LET b == Clause(Kept(r), "Kept") IN
    IF b # {} THEN b
    ELSE Clause(r.out.zero, "IceLeft") \cup Clause(OnePlace(r), "OnePlace") \cup Clause(Grown(r), "Growth") \cup Clause(Intermediate(r), "Steps")
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "refuse" -> Clause(r.exc # "" /\ r.files = <<>>, "Accepted")
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "files" -> Clause(Files(r), "Files")
      [] r.ev = "remesh" -> BadGrid(r)
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
