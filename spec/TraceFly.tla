------------------------------ MODULE TraceFly ------------------------------
(***************************************************************************)
(* Recorded flights.                                                       *)
(***************************************************************************)
EXTENDS Fly, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

(***************************************************************************)
(* A flight without drag: pts are the points of the trajectory scaled by K.*)
(***************************************************************************)
Points(r) == \A k \in DOMAIN r.pts : r.pts[k] = Mul3(K, At(r.f, k))
Law(r) == FlightOk(r.f, Len(r.pts), r.out, r.face)
\* The model finished this flight in one of these ways.
Expected(r) == r.exp = <<>> \/ \E k \in DOMAIN r.exp :
    r.exp[k].n = Len(r.pts) /\ r.exp[k].o = r.out /\ r.exp[k].face = r.face

(***************************************************************************)
(* A flight with drag: pts are scaled by KD = 2^18, start is integer,      *)
(* v4 : displacement of the first step in quarters, wind[i] : displacement *)
(* of the air at the air point i in quarters, ru : 10 q Re for the         *)
(* relative displacement 1, lu : 10^5 Lam / (Cd * relative displacement).           *)
(***************************************************************************)
KD == 262144
D(r, k) == Sub3(r.pts[k + 1], r.pts[k])
DivT(x, m) == IF x < 0 THEN -((-x) \div m) ELSE x \div m
Div3(a, m) == <<DivT(a[1], m), DivT(a[2], m), DivT(a[3], m)>>
L1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
\* Distances in units of 1/128.
Far(r, k, i) == Sub3(Mul3(128, r.air[i]), Div3(r.pts[k], 2048))
Dist2(r, k, i) == Dot3(Far(r, k, i), Far(r, k, i))
Nearest(r, k) ==
    LET m == MinOf({Dist2(r, k, i) : i \in DOMAIN r.air}) IN
    {i \in DOMAIN r.air : Dist2(r, k, i) - m <= 2 * L1(Far(r, k, i)) + 2 * Isqrt(3 * m) + 6}
\* The velocity changes after the step k as the wind w demands.
Deflects(r, k, w) ==
    LET a == Sub3(D(r, k + 1), D(r, k))
        rel == Sub3(Mul3(KD \div 4, w), D(r, k))
        as == Div3(a, 256)  rs == Div3(rel, 256)
        c == Cross3(as, rs)
        m == Isqrt(Dot3(rs, rs))
        re == (m * r.ru) \div 1024
        i == CHOOSE j \in 1..3 : \A h \in 1..3 : Abs(rel[h]) <= Abs(rel[j])
        lam == (a[i] * 1000) \div rel[i]
        ok(cd) == LET want == ((((cd * m) \div 1024) * r.lu) \div 100000) IN Abs(lam - want) <= 4 + want \div 50 IN
    /\ L1(c) <= 3 * (L1(as) + L1(rs)) + 6
    /\ (rel = Zero3 => L1(a) <= 6)
    /\ (m >= 100 /\ InTable(re, r.q)) => \E cd \in Cd1000s(re, r.q) : ok(cd)
Start(r) == /\ r.pts[1] = Mul3(KD, r.start)
            /\ Len(r.pts) > 1 => L1(Sub3(D(r, 1), Mul3(KD \div 4, r.v4))) <= 6
Drag(r) == \A k \in 1..(Len(r.pts) - 2) : \E i \in Nearest(r, k) : Deflects(r, k, r.wind[i])
SpaceD(r) == BoxOf({Mul3(KD, r.air[i]) : i \in DOMAIN r.air})
Grow(b, e) == <<<<b[1][1] - e, b[1][2] - e, b[1][3] - e>>, <<b[2][1] + e, b[2][2] + e, b[2][3] + e>>>>
\* The tool does not tell the outcome of a flight: "?"
DragEnd(r) ==
    LET n == Len(r.pts)
        as(o) == CASE o = "N" -> n = r.max + 1
                   [] o = "O" -> n <= r.max /\ ~ InBox(Grow(SpaceD(r), -2), r.pts[n])
                   [] o = "S" -> n <= r.max /\ r.v4 = Zero3 /\ n = 1
                   [] OTHER -> FALSE IN
    /\ \A k \in 1..(n - 1) : InBox(Grow(SpaceD(r), 2), r.pts[k])
    /\ IF r.out = "?" THEN as("N") \/ as("O") \/ as("S") ELSE as(r.out)

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "fly" -> Clause(Points(r), "Trajectory") \cup Clause(Law(r), "Outcome") \cup Clause(Expected(r), "NotAsModel")
      [] r.ev = "drag" -> IF ~ Start(r) THEN {"Start"} ELSE Clause(Drag(r), "Drag") \cup Clause(DragEnd(r), "Outcome")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
