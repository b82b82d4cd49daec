---------------------------- MODULE TraceExplode ----------------------------
(***************************************************************************)
(* Grids loaded without merging whose zones were moved apart p times.      *)
(* zs : zones and points of the file; way : for each zone the ways of its  *)
(* nodes, times N * Nz * kd^p; before, after : the structure (without      *)
(* positions); mem, stored : tokens of corners of faces in memory and in   *)
(* the file written.                                                       *)
(***************************************************************************)
EXTENDS Explode, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Near(a, b, tol) == \A c \in 1..3 : a[c] - b[c] \in (-tol)..tol
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] r.before # r.after -> {"StructureChanged"}
      [] OTHER ->
        Clause(\A i \in DOMAIN r.zs :
            LET w == WayAfter(r.zs, i, r.kn, r.kd, r.p) IN
            \A j \in DOMAIN r.way[i] : Near(r.way[i][j], w, 1)
                 /\ r.way[i][j] = r.way[i][1], "Ways")
        \cup Clause(Len(r.way) = Len(r.zs) /\ \A i \in DOMAIN r.zs : Len(r.way[i]) = Len(r.zs[i]), "Nodes")
        \cup Clause(r.stored = r.mem, "Stored")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
