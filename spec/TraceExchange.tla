--------------------------- MODULE TraceExchange ---------------------------
(***************************************************************************)
(* Outcomes of runs of several ranks.  Values tell who computed them:      *)
(* V(r, k, v, g) is the value of the field k (0 - T, 1 - Hi, 2 - Hw) of    *)
(* the face g in its version v at the rank r.  Ranks, fields, zones are    *)
(* numbered from 0, faces and points from 1.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

V(r, k, v, g) == ((r * 4 + k) * 8 + v) * 5000001 + g
Rng(s) == {s[i] : i \in DOMAIN s}
Adjacent(f, g) == Cardinality(Rng(f) \cap Rng(g)) = 2
Ranks(r) == 0..r.n - 1
Own(r, q) == {g \in DOMAIN r.faces : r.zone[g] = q}
\* Faces of other zones along the border of the zone q.
Ghosts(r, q) == {g \in DOMAIN r.faces : r.zone[g] # q /\ \E f \in Own(r, q) : Adjacent(r.faces[f], r.faces[g])}

\* Every rank holds for its own faces its own values, for the neighbours those of their ranks;
\* fields that were not exchanged (version -1) and other faces are left as they were.
Exchanged(r) ==
    \A q \in Ranks(r) :
        LET gh == TLCEval(Ghosts(r, q)) IN
        \A g \in DOMAIN r.faces, k \in 0..2 :
            (r.main /\ q = 0 /\ k = 1) \/
            LET v == IF r.ver[k + 1] = -1 THEN r.last ELSE r.ver[k + 1]
                who == IF g \in gh /\ r.ver[k + 1] # -1 THEN r.zone[g] ELSE q IN
            r.vals[q + 1][g][k + 1] = V(who, k, v, g)
\* All processes have the same decomposition, and work on the values of their own zones.
SameZones(r) == \A q \in Ranks(r) : r.ranks[q + 1].known /\ r.ranks[q + 1].zone = r.ranks[1].zone
OwnZone(r) == \A q \in Ranks(r) :
    LET me == r.ranks[q + 1] IN
    /\ Rng(me.own) = {g \in DOMAIN me.zone : me.zone[g] = q}
    /\ \A k \in 0..2 : LET x == me.swim[CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 3] IN
        Len(x) = Len(me.own) /\ \A i \in DOMAIN x : x[i] = V(q, k, 0, me.own[i])
\* The remesher gets at rank 0, once, the height which the owner of each face has computed;
\* the stored grid has them too, in the same zones.
Gathered(r) ==
    /\ r.remeshed = [q \in 1..r.n |-> IF q = 1 THEN 1 ELSE 0]
    /\ \A g \in DOMAIN r.faces : LET h == CASE g % 2 = 1 -> V(r.zone[g], 1, 0, g) + r.add [] g % 4 = 2 -> 0 [] g % 4 = 0 -> V(r.zone[g], 1, 0, g) - 300 IN
        /\ r.seen[1][g][2] = h
        /\ r.out.vals[g][2] = h
        /\ r.out.vals[g][1] = r.seen[1][g][1] /\ r.out.vals[g][3] = r.seen[1][g][3]
        /\ r.out.vals[g][4] = r.zone[g]

Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "same" -> Clause(r.same, "SameZones")
      [] r.ev = "ranks" -> Clause(SameZones(r), "SameZones") \cup Clause(OwnZone(r), "OwnZone")
      [] r.ev = "exchange" -> Clause(Exchanged(r), "Exchanged")
      [] r.ev = "gather" -> Clause(r.out.exc = "" /\ Gathered(r), "Gathered")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
