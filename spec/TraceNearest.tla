---------------------------- MODULE TraceNearest ----------------------------
(***************************************************************************)
(* Transfer of face values between grids: every face of the target takes   *)
(* the named values of one face of the source with the nearest centre.     *)
(* src, dst : faces with c - three times their centre (integers), d - the  *)
(* values of their variables as tokens; out - the grid written.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Rng(s) == {s[i] : i \in DOMAIN s}
Dist2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2]) + (a[3]-b[3])*(a[3]-b[3])
Nearest(src, c) ==
    LET d == TLCEval([j \in DOMAIN src |-> Dist2(src[j].c, c)])
        S == {d[j] : j \in DOMAIN src}
        m == CHOOSE x \in S : \A y \in S : x <= y IN
    {j \in DOMAIN src : d[j] = m}
Transferred(r) ==
    \A i \in DOMAIN r.dst : \E j \in Nearest(r.src, r.dst[i].c) :
        \A v \in Rng(r.out.vars) :
            r.out.d[i][v] = IF v \in Rng(r.taken) THEN r.src[j].d[v] ELSE r.dst[i].d[v]
Kept(r) ==
    /\ r.out.title = r.title
    /\ r.out.vars = r.vars \o SelectSeq(r.taken, LAMBDA v : v \notin Rng(r.vars))
    /\ r.out.zones = r.zones
    /\ r.out.tris = r.tris
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "refuse" -> Clause(r.exc # "" /\ r.written = <<>>, "Accepted")
      [] r.exc # "" -> {"Raises"}
      [] ~Kept(r) -> {"Kept"}
      [] OTHER -> Clause(Transferred(r), "Nearest") \cup Clause(r.same, "SourceChanged")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
