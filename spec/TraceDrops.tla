----------------------------- MODULE TraceDrops -----------------------------
(***************************************************************************)
(* Runs of the drops tool.                                                 *)
(* faces : faces of the surface in the order of the grid's faces with the  *)
(*   triangle t, the amount s of stalled water, the velocity v of the      *)
(*   droplet (displacement in a step), other : token of the values that    *)
(*   must be kept, imp : token of MImp2                                    *)
(* d, thr, max : parameters of the tool                                    *)
(* out : the resulting grid; traj : the stored trajectories                *)
(***************************************************************************)
EXTENDS Fly, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Sum3(t) == Add3(t[1], Add3(t[2], t[3]))
\* Droplets start from faces in planes of two axes with vertices that make the centroid integer.
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Unit(n) == [i \in 1..3 |-> Sgn(n[i])]
Start(r, i) == Add3([k \in 1..3 |-> Sum3(r.faces[i].t)[k] \div 3], Mul3(r.d, Unit(Normal(r.faces[i].t))))
Wet(r) == {i \in DOMAIN r.faces : r.faces[i].s > r.thr}
Flight(r, i) == [tris |-> [k \in DOMAIN r.faces |-> r.faces[k].t], air |-> r.air, start |-> Start(r, i), v |-> r.faces[i].v, max |-> r.max]

\* A trajectory for each wet face and for no other, in the order of faces.
RECURSIVE SeqOf(_, _)
SeqOf(S, n) == IF n = 0 THEN <<>> ELSE SeqOf(S, n - 1) \o (IF n \in S THEN <<n>> ELSE <<>>)
WetSeq(r) == SeqOf(Wet(r), Len(r.faces))
Trajectories(r) ==
    /\ Len(r.traj) = Len(WetSeq(r))
    /\ \A k \in DOMAIN r.traj : r.traj[k].name = "Trajectory-" \o ToString(WetSeq(r)[k] - 1)
\* How the flight of the trajectory k may have ended: 0 - without a hit, otherwise the face hit.
Ends(r, k) ==
    LET f == Flight(r, WetSeq(r)[k])  n == Len(r.traj[k].pts) IN
    {j \in 0..Len(r.faces) : IF j = 0 THEN \E o \in {"N", "O", "S"} : FlightOk(f, n, o, 0) ELSE FlightOk(f, n, "C", j)}
Points(r) == \A k \in DOMAIN r.traj :
    LET f == Flight(r, WetSeq(r)[k]) IN
    \A n \in DOMAIN r.traj[k].pts : r.traj[k].pts[n] = Mul3(K, At(f, n))
Flights(r) == \A k \in DOMAIN r.traj : Ends(r, k) # {}

\* x, scaled by 100, is the square root of n
Sqrt100(x, n) == /\ x \in 1..40000
                 /\ (x - 1) * (x - 1) <= 10000 * n
                 /\ 10000 * n <= (x + 1) * (x + 1)
Len2(u) == Dot3(u, u)
\* The impingement of the face j comes from the droplet of face i: its water over the area of j.
\* inv[i] is 200 s_i / MImp2 of j in units of length squared
From(r, j, i) == Sqrt100(r.out.faces[j].inv[i], Len2(Normal(r.faces[j].t)))
Impinged(r) == {j \in DOMAIN r.faces : r.out.faces[j].imp # r.faces[j].imp}
Secondary(r) ==
    LET es == [k \in DOMAIN r.traj |-> Ends(r, k)]
        hits(j) == {k \in DOMAIN r.traj : j \in es[k]} IN
    /\ \A j \in Impinged(r) : \E k \in hits(j) : From(r, j, WetSeq(r)[k])
    /\ \A k \in DOMAIN r.traj : 0 \notin es[k] => (es[k] \cap Impinged(r)) # {}

\* The rest of the grid.
Kept(r) ==
    /\ r.out.title = r.title
    /\ r.out.zones = r.zones
    /\ Len(r.out.faces) = Len(r.faces)
    /\ \A i \in DOMAIN r.faces : r.out.faces[i].t = r.faces[i].p /\ r.out.faces[i].other = r.faces[i].other
Vars(r) ==
    LET stall == {"Stall", "StallD", "StallVX", "StallVY", "StallVZ"} IN
    LET want == SelectSeq(r.vars, LAMBDA x : x \notin stall)
        has(q) == \E i \in DOMAIN q : q[i] = "MImp2" IN
    \/ r.out.vars = want
    \* the tool adds the variable when a droplet hits
    \/ ~ has(want) /\ has(r.out.vars) /\ SelectSeq(r.out.vars, LAMBDA x : x # "MImp2") = want
Zeroed(r) == \A i \in DOMAIN r.out.faces : r.out.faces[i].zero

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadRun(r) ==
    LET b == Clause(Vars(r), "Variables") \cup Clause(Kept(r), "Kept") \cup Clause(Trajectories(r), "Trajectories") IN
    IF b # {} THEN b
    ELSE LET c == Clause(Points(r), "Points") \cup Clause(Zeroed(r), "Zeroed") IN
         IF c # {} THEN c ELSE IF ~ Flights(r) THEN {"Flights"} ELSE Clause(Secondary(r), "Secondary")
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "refuse" -> Clause(r.exc # "" /\ ~ r.wrote, "Accepted")
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "drops" -> BadRun(r)
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
